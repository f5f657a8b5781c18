// P03: element-wise functions, operators and expressions.
#include "model.hpp"
#include "main.hpp"
#include <vsip/selgen.hpp>
#include <functional>
using namespace vt;
typedef std::complex<float> cf; typedef std::complex<double> cd;
typedef long double ld; typedef std::complex<long double> cld;

// ---- comparison ------------------------------------------------------------
template <typename T> cld wide(T x) { return cld(ld(x), 0);}
template <typename T> cld wide(std::complex<T> x) { return cld(ld(x.real()), ld(x.imag()));}
static bool isn(cld z) { return std::isnan(z.real()) || std::isnan(z.imag());}
// tolerance class: 0 exact, else multiples of eps
struct Tol { double k; double base; Tol(double a, double b = 1) : k(a), base(b) {} };
template <typename R, typename W> bool close(R got, W ref, Tol t)
{
  cld g = wide(got), r = wide(ref);
  if (isn(g) || isn(r)) return isn(g) == isn(r);
  if (g == r) return true;
  if (t.k == 0) return false;
  ld d = std::abs(g - r);
  return d <= ld(t.k) * ld(eps_of<R>::get()) * (ld(t.base) + std::abs(r));
}
template <typename R, typename W>
std::string diff(std::vector<R> const &got, std::vector<W> const &ref, Tol t, char const *how)
{
  if (got.size() != ref.size()) return str(how, ": ", got.size(), " elements, expected ", ref.size());
  for (size_t i = 0; i < ref.size(); ++i)
    if (!close(got[i], ref[i], t)) return str(how, ": element #", i, " = ", got[i], " expected ", wide(ref[i]));
  return "";
}
// ---- one case, type-erased ---------------------------------------------------
template <typename R, int D> struct Dst
{
  Erased<R, D> &e;
  template <typename W>
  void judge(Ctx &c, std::string const &key, std::vector<W> const &ref, Tol t, std::string const &sig)
  {
    std::vector<R> got = e.read();
    std::string m = diff(got, ref, t, "assigned");
    if (m.empty()) m = e.verify(got);          // surroundings untouched
    if (!m.empty()) c.fail(key, m); else c.ok(sig, 1 + long(ref.size() / 8));
  }
};
template <typename A, int D> void unchanged(Ctx &c, std::string const &key, Erased<A, D> &e, std::vector<A> const &x)
{ std::string m = e.verify(x); if (!m.empty()) c.fail(key + ":operand-changed", m);}

template <typename A> struct Dom { double lo, hi; bool integral, nz; };
template <typename A> typename std::enable_if<std::is_integral<A>::value, A>::type draw(Rng &r, Dom<A> const &d)
{ for (;;) { A x = A(r.range(long(d.lo), long(d.hi))); if (!d.nz || x) return x;} }
template <typename A> typename std::enable_if<std::is_floating_point<A>::value, A>::type draw(Rng &r, Dom<A> const &d)
{
  for (;;)
  {
    A x = d.integral ? A(r.range(long(d.lo), long(d.hi))) : A(d.lo + (d.hi - d.lo) * r.unit());
    if (r.coin(1, 12)) x = A(r.coin() ? d.lo : d.hi);
    if (!d.nz || std::abs(x) > 1e-3) return x;
  }
}
template <typename A> typename std::enable_if<is_cplx<A>::value, A>::type draw(Rng &r, Dom<A> const &d)
{
  typedef typename scalar<A>::type S; Dom<S> e = {d.lo, d.hi, d.integral, false};
  for (;;) { S a = draw<S>(r, e), b = draw<S>(r, e); A x(a, b); if (!d.nz || std::abs(x) > 1e-3) return x;}
}
template <typename A> std::vector<A> draws(Rng &r, long n, Dom<A> const &d)
{ std::vector<A> v; for (long i = 0; i < n; ++i) v.push_back(draw<A>(r, d)); return v;}

template <typename R, typename V> bool same_type(V const &) { return std::is_same<typename V::value_type, R>::value;}

static void shape(Ctx &c, int D, long *n, int it)
{
  rshape(c.rng, D, n, 7);
  if (D == 1 && n[0] > 80) n[0] = 80;
  if (it == 0) for (int d = 0; d < D; ++d) n[d] = 4 + d;
}

template <typename R, typename A, int D, int KR, int KA, typename FE, typename FR>
void un(Ctx &c, char const *name, FE fe, FR fr, Dom<A> da, Tol tol)
{
  for (int it = 0; it < c.n(5); ++it)
  {
    long n[3]; shape(c, D, n, it);
    auto d = ZooD<D, R>::template mk<KR>(c.rng, n); auto a = ZooD<D, A>::template mk<KA>(c.rng, n);
    auto &ed = erase(d); auto &ea = erase(a);
    std::string key = str("un:", name, ":", tname<A>::get(), D);
    c.begin(str(name, " ", tname<R>::get(), "<-", tname<A>::get(), " ", sshape(D, n), " ", d.what, " := f(", a.what, ")"));
    std::vector<A> x = draws<A>(c.rng, a.s.total(), da); ea.setup(x);
    std::vector<decltype(fr(x[0]))> ref; for (auto &&y : x) ref.push_back(fr(y));
    auto e = fe(a.v);
    if (!same_type<R>(e)) c.fail(key + ":result-type", "unexpected value type");
    std::string m = diff(readall(e), ref, tol, "get");
    if (!m.empty()) c.fail(key, m);
    d.v = e;
    Dst<R, D>{ed}.judge(c, key, ref, tol, c.label);
    unchanged<A, D>(c, key, ea, x);
  }
}
template <typename A> void copy_one(std::vector<A> &y, std::vector<A> const &x, size_t i) { y[i] = x[i];}
template <typename A, typename B> void copy_one(std::vector<B> &, std::vector<A> const &, size_t) {}
template <typename R, typename A, typename B, int D, int KR, int KA, int KB, typename FE, typename FR>
void bi(Ctx &c, char const *name, FE fe, FR fr, Dom<A> da, Dom<B> db, Tol tol, int reps = 5)
{
  for (int it = 0; it < c.n(reps); ++it)
  {
    long n[3]; shape(c, D, n, it);
    auto d = ZooD<D, R>::template mk<KR>(c.rng, n); auto a = ZooD<D, A>::template mk<KA>(c.rng, n); auto b = ZooD<D, B>::template mk<KB>(c.rng, n);
    auto &ed = erase(d); auto &ea = erase(a); auto &eb = erase(b);
    std::string key = str("bi:", name, ":", tname<A>::get(), tname<B>::get(), D);
    c.begin(str(name, " ", tname<R>::get(), "<-", tname<A>::get(), ",", tname<B>::get(), " ", sshape(D, n), " ", d.what, " := f(", a.what, ", ", b.what, ")"));
    std::vector<A> x = draws<A>(c.rng, a.s.total(), da); ea.setup(x);
    std::vector<B> y = draws<B>(c.rng, b.s.total(), db);
    for (size_t i = 0; i < y.size(); ++i) if (c.rng.coin(1, 5) && std::is_same<A, B>::value && (!db.nz || x[i] != A())) copy_one(y, x, i);
    eb.setup(y);
    std::vector<decltype(fr(x[0], y[0]))> ref; for (size_t i = 0; i < x.size(); ++i) ref.push_back(fr(x[i], y[i]));
    auto e = fe(a.v, b.v);
    if (!same_type<R>(e)) c.fail(key + ":result-type", "unexpected value type");
    std::string m = diff(readall(e), ref, tol, "get");
    if (!m.empty()) c.fail(key, m);
    d.v = e;
    Dst<R, D>{ed}.judge(c, key, ref, tol, c.label);
    unchanged<A, D>(c, key, ea, x); unchanged<B, D>(c, key, eb, y);
  }
}
// binary with a scalar second (and first) operand
template <typename R, typename A, typename S, int D, int KR, int KA, typename FE, typename FR>
void bs(Ctx &c, char const *name, FE fe, FR fr, Dom<A> da, Dom<S> ds, Tol tol)
{
  for (int it = 0; it < c.n(4); ++it)
  {
    long n[3]; shape(c, D, n, it);
    auto d = ZooD<D, R>::template mk<KR>(c.rng, n); auto a = ZooD<D, A>::template mk<KA>(c.rng, n);
    auto &ed = erase(d); auto &ea = erase(a);
    S s = draw<S>(c.rng, ds);
    std::string key = str("bs:", name, ":", tname<A>::get(), tname<S>::get(), D);
    c.begin(str(name, " ", tname<R>::get(), "<-", tname<A>::get(), ",scalar ", tname<S>::get(), " ", s, " ", sshape(D, n), " ", d.what, " := f(", a.what, ")"));
    std::vector<A> x = draws<A>(c.rng, a.s.total(), da); ea.setup(x);
    std::vector<decltype(fr(x[0], s))> ref; for (auto &&q : x) ref.push_back(fr(q, s));
    auto e = fe(a.v, s);
    if (!same_type<R>(e)) c.fail(key + ":result-type", "unexpected value type");
    std::string m = diff(readall(e), ref, tol, "get");
    if (!m.empty()) c.fail(key, m);
    d.v = e;
    Dst<R, D>{ed}.judge(c, key, ref, tol, c.label);
    unchanged<A, D>(c, key, ea, x);
  }
}
template <typename R, typename A, typename B, typename E, int D, int KR, int KA, int KB, int KC, typename FE, typename FR>
void te(Ctx &c, char const *name, FE fe, FR fr, Dom<A> da, Dom<B> db, Dom<E> dc, Tol tol, int reps = 5)
{
  for (int it = 0; it < c.n(reps); ++it)
  {
    long n[3]; shape(c, D, n, it);
    auto d = ZooD<D, R>::template mk<KR>(c.rng, n); auto a = ZooD<D, A>::template mk<KA>(c.rng, n);
    auto b = ZooD<D, B>::template mk<KB>(c.rng, n); auto z = ZooD<D, E>::template mk<KC>(c.rng, n);
    auto &ed = erase(d); auto &ea = erase(a); auto &eb = erase(b); auto &ez = erase(z);
    std::string key = str("te:", name, ":", tname<A>::get(), tname<B>::get(), tname<E>::get(), D);
    c.begin(str(name, " ", tname<R>::get(), "<-", tname<A>::get(), ",", tname<B>::get(), ",", tname<E>::get(), " ", sshape(D, n), " ", d.what,
                " := f(", a.what, ", ", b.what, ", ", z.what, ")"));
    std::vector<A> x = draws<A>(c.rng, a.s.total(), da); ea.setup(x);
    std::vector<B> y = draws<B>(c.rng, b.s.total(), db); eb.setup(y);
    std::vector<E> w = draws<E>(c.rng, z.s.total(), dc); ez.setup(w);
    std::vector<decltype(fr(x[0], y[0], w[0]))> ref; for (size_t i = 0; i < x.size(); ++i) ref.push_back(fr(x[i], y[i], w[i]));
    auto e = fe(a.v, b.v, z.v);
    if (!same_type<R>(e)) c.fail(key + ":result-type", "unexpected value type");
    std::string m = diff(readall(e), ref, tol, "get");
    if (!m.empty()) c.fail(key, m);
    d.v = e;
    Dst<R, D>{ed}.judge(c, key, ref, tol, c.label);
    unchanged<A, D>(c, key, ea, x); unchanged<B, D>(c, key, eb, y); unchanged<E, D>(c, key, ez, w);
  }
}
// compound assignment: d op= b;  fs changes the view, fr gives the new value
template <typename R, typename B, int D, int KR, int KB, typename FS, typename FR>
void cp(Ctx &c, char const *name, FS fs, FR fr, Dom<R> dr, Dom<B> db, Tol tol)
{
  for (int it = 0; it < c.n(5); ++it)
  {
    long n[3]; shape(c, D, n, it);
    auto d = ZooD<D, R>::template mk<KR>(c.rng, n); auto b = ZooD<D, B>::template mk<KB>(c.rng, n);
    auto &ed = erase(d); auto &eb = erase(b);
    std::string key = str("cp:", name, ":", tname<R>::get(), tname<B>::get(), D);
    c.begin(str(name, " ", tname<R>::get(), ",", tname<B>::get(), " ", sshape(D, n), " ", d.what, " op= ", b.what));
    std::vector<R> x = draws<R>(c.rng, d.s.total(), dr); ed.setup(x);
    std::vector<B> y = draws<B>(c.rng, b.s.total(), db); eb.setup(y);
    std::vector<decltype(fr(x[0], y[0]))> ref; for (size_t i = 0; i < x.size(); ++i) ref.push_back(fr(x[i], y[i]));
    fs(d.v, b.v);
    Dst<R, D>{ed}.judge(c, key, ref, tol, c.label);
    unchanged<B, D>(c, key, eb, y);
  }
}
template <typename R, typename S, int D, int KR, typename FS, typename FR>
void cs(Ctx &c, char const *name, FS fs, FR fr, Dom<R> dr, Dom<S> ds, Tol tol)
{
  for (int it = 0; it < c.n(5); ++it)
  {
    long n[3]; shape(c, D, n, it);
    auto d = ZooD<D, R>::template mk<KR>(c.rng, n); auto &ed = erase(d); S s = draw<S>(c.rng, ds);
    std::string key = str("cs:", name, ":", tname<R>::get(), tname<S>::get(), D);
    c.begin(str(name, " ", tname<R>::get(), ",scalar ", tname<S>::get(), " ", s, " ", sshape(D, n), " ", d.what));
    std::vector<R> x = draws<R>(c.rng, d.s.total(), dr); ed.setup(x);
    std::vector<decltype(fr(x[0], s))> ref; for (auto &&q : x) ref.push_back(fr(q, s));
    fs(d.v, s);
    Dst<R, D>{ed}.judge(c, key, ref, tol, c.label);
  }
}

#define W(x) wide(x)
#define WR(x) ld(x)
#define EX(...) [](auto const &a) { return __VA_ARGS__; }
#define EX2(...) [](auto const &a, auto const &b) { return __VA_ARGS__; }
#define EX3(...) [](auto const &a, auto const &b, auto const &e) { return __VA_ARGS__; }
template <typename A> Dom<A> in(double lo, double hi, bool nz = false) { return Dom<A>{lo, hi, false, nz};}
template <typename A> Dom<A> ints(double lo = -9, double hi = 9, bool nz = false) { return Dom<A>{lo, hi, true, nz};}
static Tol const T8(8), T64(64), EXACT(0);

#if PGRP == 1   // unary, real
template <typename T, int D, int KR, int KA> void reals(Ctx &c)
{
#define U(N, F, LO, HI, NZ, TOL) un<T, T, D, KR, KA>(c, #N, EX(N(a)), [](T x_) { ld x = x_; return F;}, in<T>(LO, HI, NZ), TOL);
  U(acos, std::acos(x), -1, 1, 0, T8) U(asin, std::asin(x), -1, 1, 0, T8) U(atan, std::atan(x), -9, 9, 0, T8)
  U(ceil, std::ceil(x), -9, 9, 0, EXACT) U(floor, std::floor(x), -9, 9, 0, EXACT)
  U(cos, std::cos(x), -9, 9, 0, T8) U(cosh, std::cosh(x), -5, 5, 0, T8) U(exp, std::exp(x), -5, 5, 0, T8)
  U(exp10, std::pow(10.0L, x), -4, 4, 0, T64) U(log, std::log(x), .01, 99, 1, T8) U(log10, std::log10(x), .01, 99, 1, T8)
  U(mag, std::fabs(x), -9, 9, 0, EXACT) U(magsq, x * x, -9, 9, 0, T8) U(neg, -x, -9, 9, 0, EXACT)
  U(recip, 1 / x, -9, 9, 1, T8) U(rsqrt, 1 / std::sqrt(x), .01, 99, 1, T8) U(sin, std::sin(x), -9, 9, 0, T8)
  U(sinh, std::sinh(x), -5, 5, 0, T8) U(sq, x * x, -9, 9, 0, T8) U(sqrt, std::sqrt(x), 0, 99, 0, T8)
  U(tan, std::tan(x), -1.4, 1.4, 0, T64) U(tanh, std::tanh(x), -3, 3, 0, T8)
#undef U
  un<std::complex<T>, T, D, KR, KA>(c, "euler", EX(euler(a)), [](T x) { return cld(std::cos(ld(x)), std::sin(ld(x)));}, in<T>(-9, 9), T8);
  un<T, T, D, KR, KA>(c, "minus", EX(-a), [](T x) { return -ld(x);}, in<T>(-9, 9), EXACT);
  un<T, T, D, KR, KA>(c, "plus", EX(+a), [](T x) { return ld(x);}, in<T>(-9, 9), EXACT);
}
template <typename T, int D, int KR, int KA> void classify(Ctx &c)
{
  // finite/nan/normal need special values
  for (int it = 0; it < c.n(6); ++it)
  {
    long n[3]; shape(c, D, n, it);
    auto a = ZooD<D, T>::template mk<KA>(c.rng, n); auto d = ZooD<D, bool>::template mk<KR>(c.rng, n);
    auto &ea = erase(a); auto &ed = erase(d);
    typedef typename scalar<T>::type S; typedef std::numeric_limits<S> L;
    S sp[] = {S(0), S(1), S(-3), L::infinity(), -L::infinity(), L::quiet_NaN(), L::denorm_min(), L::min(), L::max(), -L::denorm_min()};
    auto one = [&](S) { return sp[c.rng.range(0, 9)];};
    std::vector<T> x; for (long i = 0; i < a.s.total(); ++i) { T v; S *p = (S*)&v; for (size_t k = 0; k < sizeof(T) / sizeof(S); ++k) p[k] = one(S()); x.push_back(v);}
    ea.setup(x);
    auto all = [&](T const &v, bool (*f)(S), bool conj) { S const *p = (S const*)&v; bool r = conj; for (size_t k = 0; k < sizeof(T) / sizeof(S); ++k) r = conj ? r && f(p[k]) : r || f(p[k]); return r;};
    for (int f = 0; f < 3; ++f)
    {
      char const *nm = f == 0 ? "is_finite" : f == 1 ? "is_nan" : "is_normal";
      c.begin(str(nm, " ", tname<T>::get(), D, " ", sshape(D, n), " ", d.what, " ", a.what));
      std::vector<bool> ref_; std::vector<int> ref;
      for (auto &v : x) ref.push_back(f == 0 ? all(v, [](S s) { return std::isfinite(s);}, true) : f == 1 ? all(v, [](S s) { return std::isnan(s);}, false) : all(v, [](S s) { return std::isnormal(s);}, true));
      if (f == 0) d.v = is_finite(a.v); else if (f == 1) d.v = is_nan(a.v); else d.v = is_normal(a.v);
      Dst<bool, D>{ed}.judge(c, str("un:", nm, ":", tname<T>::get()), ref, EXACT, c.label);
    }
  }
}
void vt_main(Ctx &c)
{
  reals<float, 1, 0, 0>(c); reals<double, 2, 1, 2>(c);
  classify<float, 1, 1, 0>(c); classify<double, 2, 0, 1>(c); classify<cf, 1, 0, 5>(c);
  // integers and bools
  un<int, int, 1, 1, 0>(c, "neg", EX(neg(a)), [](int x) { return -x;}, ints<int>(), EXACT);
  un<int, int, 2, 1, 0>(c, "bnot", EX(bnot(a)), [](int x) { return ~x;}, ints<int>(-999, 999), EXACT);
  un<int, int, 1, 1, 1>(c, "~", EX(~a), [](int x) { return ~x;}, ints<int>(-999, 999), EXACT);
  un<int, int, 1, 0, 3>(c, "sq", EX(sq(a)), [](int x) { return x * x;}, ints<int>(), EXACT);
  un<int, int, 2, 0, 3>(c, "mag", EX(mag(a)), [](int x) { return x < 0 ? -x : x;}, ints<int>(), EXACT);
  un<int, int, 1, 0, 0>(c, "magsq", EX(magsq(a)), [](int x) { return x * x;}, ints<int>(), EXACT);
  un<bool, bool, 1, 0, 1>(c, "!", EX(!a), [](bool x) { return int(!x);}, Dom<bool>{0, 1, true, false}, EXACT);
  un<bool, bool, 2, 0, 1>(c, "lnot", EX(lnot(a)), [](bool x) { return int(!x);}, Dom<bool>{0, 1, true, false}, EXACT);
  // casts
  un<int, float, 1, 0, 1>(c, "cast", EX(ovxx::view_cast<int>(a)), [](float x) { return int(x);}, in<float>(-99, 99), EXACT);
  un<double, float, 2, 0, 1>(c, "cast", EX(ovxx::view_cast<double>(a)), [](float x) { return ld(x);}, in<float>(-99, 99), EXACT);
  un<float, double, 3, 0, 1>(c, "cast", EX(ovxx::view_cast<float>(a)), [](double x) { return float(x);}, in<double>(-99, 99), EXACT);
  un<cd, cf, 1, 0, 5>(c, "cast", EX(ovxx::view_cast<cd>(a)), [](cf x) { return W(x);}, in<cf>(-99, 99), EXACT);
  un<cf, float, 1, 5, 1>(c, "cast", EX(ovxx::view_cast<cf>(a)), [](float x) { return W(x);}, in<float>(-99, 99), EXACT);
}
#elif PGRP == 2 // unary, complex
template <typename T, int D, int KR, int KA> void cplx(Ctx &c)
{
  typedef std::complex<T> C;
#define U(R, N, F, LO, HI, NZ, TOL) un<R, C, D, KR, KA>(c, #N, EX(N(a)), [](C x_) { cld x = W(x_); return F;}, in<C>(LO, HI, NZ), TOL);
  U(C, acos, std::acos(x), -3, 3, 0, T64) U(C, asin, std::asin(x), -3, 3, 0, T64) U(C, atan, std::atan(x), 1.5, 5, 0, T64)
  U(T, arg, std::arg(x), -5, 5, 1, T8) U(C, conj, std::conj(x), -5, 5, 0, EXACT) U(C, cos, std::cos(x), -3, 3, 0, T64)
  U(C, cosh, std::cosh(x), -3, 3, 0, T64) U(C, exp, std::exp(x), -3, 3, 0, T64) U(T, imag, x.imag(), -5, 5, 0, EXACT)
  U(T, real, x.real(), -5, 5, 0, EXACT) U(C, log, std::log(x), -5, 5, 1, T64) U(C, log10, std::log10(x), -5, 5, 1, T64)
  U(T, mag, std::abs(x), -5, 5, 0, T8) U(T, magsq, std::norm(x), -5, 5, 0, T8) U(C, neg, -x, -5, 5, 0, EXACT)
  U(C, recip, cld(1) / x, -5, 5, 1, Tol(2e4)) U(C, rsqrt, cld(1) / std::sqrt(x), -5, 5, 1, Tol(2e3)) U(C, sin, std::sin(x), -3, 3, 0, T64)
  U(C, sinh, std::sinh(x), -3, 3, 0, T64) U(C, sq, x * x, -5, 5, 0, T64) U(C, sqrt, std::sqrt(x), -5, 5, 0, T64)
  U(C, tan, std::tan(x), -.7, .7, 0, T64) U(C, tanh, std::tanh(x), -.7, .7, 0, T64) U(C, -, -x, -5, 5, 0, EXACT) U(C, +, x, -5, 5, 0, EXACT)
#undef U
}
void vt_main(Ctx &c) { cplx<float, 1, 5, 1>(c); cplx<double, 2, 1, 8>(c);}
#elif PGRP == 3 // binary functions and operators
template <typename T, int D, int KR, int KA, int KB> void reals(Ctx &c)
{
#define B(R, N, F, D1, D2, TOL) bi<R, T, T, D, KR, KA, KB>(c, #N, EX2(N(a, b)), [](T x_, T y_) { ld x = x_, y = y_; return F;}, D1, D2, TOL);
#define O(R, N, F, D1, D2, TOL) bi<R, T, T, D, KR, KA, KB>(c, #N, EX2(a N b), [](T x_, T y_) { ld x = x_, y = y_; return F;}, D1, D2, TOL);
  auto I = ints<T>(-5, 5); auto R9 = in<T>(-9, 9); auto NZ = in<T>(-9, 9, true);
  B(T, add, x + y, R9, R9, T8) B(T, atan2, std::atan2(x, y), NZ, NZ, T8) B(T, div, x / y, R9, NZ, T8)
  B(T, fmod, std::fmod(x, y), R9, in<T>(1, 9), T8) B(T, hypot, std::hypot(x, y), R9, R9, T8) B(T, mul, x * y, R9, R9, T8)
  B(T, max, x > y ? x : y, I, I, EXACT) B(T, min, x < y ? x : y, I, I, EXACT)
  B(T, maxmg, std::max(std::fabs(x), std::fabs(y)), I, I, EXACT) B(T, minmg, std::min(std::fabs(x), std::fabs(y)), I, I, EXACT)
  B(T, maxmgsq, std::max(x * x, y * y), I, I, EXACT) B(T, minmgsq, std::min(x * x, y * y), I, I, EXACT)
  B(T, pow, std::pow(x, y), in<T>(.1, 3), in<T>(-3, 3), T64) B(T, sub, x - y, R9, R9, T8)
  B(bool, eq, int(x == y), I, I, EXACT) B(bool, ne, int(x != y), I, I, EXACT) B(bool, ge, int(x >= y), I, I, EXACT)
  B(bool, gt, int(x > y), I, I, EXACT) B(bool, le, int(x <= y), I, I, EXACT) B(bool, lt, int(x < y), I, I, EXACT)
  O(bool, ==, int(x == y), I, I, EXACT) O(bool, !=, int(x != y), I, I, EXACT) O(bool, >=, int(x >= y), I, I, EXACT)
  O(bool, >, int(x > y), I, I, EXACT) O(bool, <=, int(x <= y), I, I, EXACT) O(bool, <, int(x < y), I, I, EXACT)
  O(T, +, x + y, R9, R9, T8) O(T, -, x - y, R9, R9, T8) O(T, *, x * y, R9, R9, T8) O(T, /, x / y, R9, NZ, T8)
#undef B
#undef O
}
template <typename A, int D, int KR, int KA, int KB> void ints_(Ctx &c)
{
#define B(R, N, F, D1, D2) bi<R, A, A, D, KR, KA, KB>(c, #N, EX2(N(a, b)), [](A x, A y) { return F;}, D1, D2, EXACT);
#define O(R, N, F, D1, D2) bi<R, A, A, D, KR, KA, KB>(c, #N, EX2(a N b), [](A x, A y) { return F;}, D1, D2, EXACT);
  auto I = ints<A>(-99, 99); auto S = ints<A>(-3, 3); auto NZ = ints<A>(-9, 9, true);
  B(A, band, x & y, I, I) B(A, bor, x | y, I, I) B(A, bxor, x ^ y, I, I) O(A, &, x & y, I, I) O(A, |, x | y, I, I) O(A, ^, x ^ y, I, I)
  B(bool, land, int(x && y), S, S) B(bool, lor, int(x || y), S, S) B(bool, lxor, int(!x != !y), S, S) O(bool, &&, int(x && y), S, S) O(bool, ||, int(x || y), S, S)
  O(A, +, x + y, I, I) O(A, -, x - y, I, I) O(A, *, x * y, I, I) O(A, /, x / y, I, NZ)
  B(A, max, x > y ? x : y, S, S) B(A, min, x < y ? x : y, S, S) B(bool, eq, int(x == y), S, S)
  B(bool, ne, int(x != y), S, S) B(bool, ge, int(x >= y), S, S) B(bool, gt, int(x > y), S, S) B(bool, le, int(x <= y), S, S) B(bool, lt, int(x < y), S, S)
#undef B
#undef O
}
void vt_main(Ctx &c)
{
  reals<float, 1, 0, 1, 0>(c); reals<double, 2, 2, 0, 1>(c); ints_<int, 1, 1, 0, 3>(c); 
  Dom<bool> Z{0, 1, true, false};
#define O(N, F) bi<bool, bool, bool, 1, 1, 0, 3>(c, #N, EX2(a N b), [](bool x, bool y) { return int(F);}, Z, Z, EXACT); \
                bi<bool, bool, bool, 2, 0, 1, 0>(c, #N, EX2(a N b), [](bool x, bool y) { return int(F);}, Z, Z, EXACT);
  O(&&, x && y) O(||, x || y) O(^, x != y) O(==, x == y) O(!=, x != y)
#undef O
}
#elif PGRP == 4 // binary, complex and mixed; scalars
template <typename T, int D, int KR, int KA, int KB> void cplx(Ctx &c)
{
  typedef std::complex<T> C;
#define B(R, A1, A2, N, F, D1, D2, TOL) bi<R, A1, A2, D, KR, KA, KB>(c, #N, EX2(N(a, b)), [](A1 x_, A2 y_) { cld x = W(x_), y = W(y_); return F;}, D1, D2, TOL);
#define O(R, A1, A2, N, F, D1, D2, TOL) bi<R, A1, A2, D, KR, KA, KB>(c, #N, EX2(a N b), [](A1 x_, A2 y_) { cld x = W(x_), y = W(y_); return F;}, D1, D2, TOL);
  auto I = ints<C>(-3, 3); auto RR = in<C>(-5, 5); auto NZ = in<C>(-5, 5, true); auto S = in<T>(-5, 5); auto SN = in<T>(-5, 5, true);
  O(C, C, C, +, x + y, RR, RR, T64) O(C, C, C, -, x - y, RR, RR, T64) O(C, C, C, *, x * y, RR, RR, T64) O(C, C, C, /, x / y, RR, NZ, Tol(4e4))
  B(C, C, C, jmul, x * std::conj(y), RR, RR, T64) B(C, C, C, add, x + y, RR, RR, T64) B(C, C, C, mul, x * y, RR, RR, T64) B(C, C, C, sub, x - y, RR, RR, T64)
  B(C, C, C, div, x / y, RR, NZ, Tol(4e4)) B(C, C, C, pow, std::pow(x, y), in<C>(.5, 2), in<C>(-1, 1), Tol(512))
  B(T, C, C, maxmg, std::max(std::abs(x), std::abs(y)), RR, RR, T8) B(T, C, C, minmg, std::min(std::abs(x), std::abs(y)), RR, RR, T8)
  B(T, C, C, maxmgsq, std::max(std::norm(x), std::norm(y)), RR, RR, T8) B(T, C, C, minmgsq, std::min(std::norm(x), std::norm(y)), RR, RR, T8)
  B(bool, C, C, eq, int(x == y), I, I, EXACT) B(bool, C, C, ne, int(x != y), I, I, EXACT) O(bool, C, C, ==, int(x == y), I, I, EXACT) O(bool, C, C, !=, int(x != y), I, I, EXACT)
  O(C, C, T, +, x + y, RR, S, T64) O(C, C, T, -, x - y, RR, S, T64) O(C, C, T, *, x * y, RR, S, T64) O(C, C, T, /, x / y, RR, SN, Tol(4e4))
  O(C, T, C, +, x + y, S, RR, T64) O(C, T, C, -, x - y, S, RR, T64) O(C, T, C, *, x * y, S, RR, T64) O(C, T, C, /, x / y, S, NZ, Tol(4e4))
#undef B
#undef O
}
template <typename R, typename A, typename S, int D, int KR, int KA> void scal(Ctx &c)
{
  typedef typename std::conditional<std::is_same<R, int>::value, int, int>::type dummy;
#define O(N, D1, D2, TOL) bs<R, A, S, D, KR, KA>(c, "v" #N "s", EX2(a N b), [](A x, S y) { return W(x) N W(y);}, D1, D2, TOL); \
                bs<R, A, S, D, KR, KA>(c, "s" #N "v", EX2(b N a), [](A x, S y) { return W(y) N W(x);}, D2n, D1n, TOL);
  Dom<A> D2n = ints<A>(1, 9, true); Dom<S> D1n = ints<S>(1, 9, true);
  O(+, ints<A>(), ints<S>(), EXACT) O(-, ints<A>(), ints<S>(), EXACT) O(*, ints<A>(), ints<S>(), EXACT)
  bs<R, A, S, D, KR, KA>(c, "v/s", EX2(a / b), [](A x, S y) { return W(x) / W(y);}, in<A>(-9, 9), in<S>(1, 9, true), T64);
  bs<R, A, S, D, KR, KA>(c, "s/v", EX2(b / a), [](A x, S y) { return W(y) / W(x);}, in<A>(1, 9, true), in<S>(-9, 9), T64);
#undef O
}
template <typename T, int D, int KR, int KA> void scalfn(Ctx &c)
{
#define B(R, N, F, D1, D2, TOL) bs<R, T, T, D, KR, KA>(c, #N "(v,s)", EX2(N(a, b)), [](T x_, T y_) { ld x = x_, y = y_; return F;}, D1, D2, TOL); \
                       bs<R, T, T, D, KR, KA>(c, #N "(s,v)", EX2(N(b, a)), [](T y_, T x_) { ld x = x_, y = y_; return F;}, D2, D1, TOL);
  auto I = ints<T>(-5, 5); auto P_ = in<T>(1, 5);
  B(T, max, x > y ? x : y, I, I, EXACT) B(T, min, x < y ? x : y, I, I, EXACT) B(T, atan2, std::atan2(x, y), P_, P_, T8)
  B(T, pow, std::pow(x, y), P_, P_, T64) B(T, hypot, std::hypot(x, y), I, I, T8) B(T, fmod, std::fmod(x, y), P_, P_, T8)
  B(bool, lt, int(x < y), I, I, EXACT) B(bool, ge, int(x >= y), I, I, EXACT) B(bool, eq, int(x == y), I, I, EXACT) B(T, sub, x - y, I, I, EXACT) B(T, maxmg, std::max(std::fabs(x), std::fabs(y)), I, I, EXACT)
#undef B
  bs<bool, T, T, D, KR, KA>(c, "v>s", EX2(a > b), [](T x, T y) { return int(x > y);}, I, I, EXACT);
  bs<bool, T, T, D, KR, KA>(c, "s<=v", EX2(b <= a), [](T x, T y) { return int(y <= x);}, I, I, EXACT);
  bs<bool, T, T, D, KR, KA>(c, "v!=s", EX2(a != b), [](T x, T y) { return int(x != y);}, I, I, EXACT);
}
void vt_main(Ctx &c)
{
#if PSUB == 0
  cplx<float, 1, 5, 0, 1>(c); cplx<double, 2, 0, 1, 9>(c);
#else
  scal<float, float, float, 1, 1, 0>(c); scal<double, double, double, 2, 1, 0>(c); scal<cf, cf, float, 1, 5, 1>(c); scal<cd, cd, cd, 2, 0, 4>(c);
  scal<cf, float, cf, 2, 8, 0>(c); scal<double, float, double, 1, 0, 1>(c); scalfn<float, 1, 0, 1>(c); scalfn<double, 2, 1, 0>(c);
  // precision of mixed operands: the wider type must win
  bi<cd, cf, cd, 1, 0, 0, 0>(c, "jmul-mixed", EX2(jmul(a, b)), [](cf x, cd y) { return W(x) * std::conj(W(y));}, in<cf>(-5, 5), in<cd>(-5, 5), T64);
  bi<cd, cd, cf, 1, 0, 0, 0>(c, "jmul-mixed", EX2(jmul(a, b)), [](cd x, cf y) { return W(x) * std::conj(W(y));}, in<cd>(-5, 5), in<cf>(-5, 5), T64);
  bi<double, float, double, 1, 0, 0, 1>(c, "+mixed", EX2(a + b), [](float x, double y) { return ld(x) + ld(y);}, in<float>(-5, 5), in<double>(-5, 5), T8);
  bi<double, double, float, 2, 0, 0, 1>(c, "*mixed", EX2(a * b), [](double x, float y) { return ld(x) * ld(y);}, in<double>(-5, 5), in<float>(-5, 5), T8);
  bi<float, int, float, 1, 0, 0, 1>(c, "-mixed", EX2(a - b), [](int x, float y) { return ld(x) - ld(y);}, ints<int>(), in<float>(-5, 5), T8);
  bi<double, float, double, 1, 0, 0, 1>(c, "maxmg-mixed", EX2(maxmg(a, b)), [](float x, double y) { return std::max(std::fabs(ld(x)), std::fabs(ld(y)));}, in<float>(-5, 5), in<double>(-5, 5), T8);
#endif
}
#elif PGRP == 5 // ternary, fused patterns, user functions, compound assignment
static float uf1(float x) { return 2 * x + 1;}
static float uf2(float x, float y) { return 3 * x - y;}
static float uf3(float x, float y, float z) { return x * y - 2 * z;}
struct UF1 : std::unary_function<float, float> { float k; UF1(float q) : k(q) {} float operator()(float x) const { return k * x;} };
struct UF2 : std::binary_function<float, float, float> { float operator()(float x, float y) const { return 2 * x + 5 * y;} };
template <typename T, int D, int KR, int KA, int KB, int KC> void ter(Ctx &c)
{
  auto I = ints<T>(-5, 5); auto NZ = ints<T>(1, 7, true);
#define T3(N, E, F) te<T, T, T, T, D, KR, KA, KB, KC>(c, N, EX3(E), [](T x_, T y_, T z_) { cld x = W(x_), y = W(y_), z = W(z_); return F;}, I, I, I, EXACT);
  T3("am", am(a, b, e), (x + y) * z) T3("ma", ma(a, b, e), x * y + z) T3("msb", msb(a, b, e), x * y - z) T3("sbm", sbm(a, b, e), (x - y) * z)
  T3("expoavg", expoavg(a, b, e), x * y + (cld(1) - x) * z)
  T3("a*b+e", a * b + e, x * y + z) T3("e+a*b", e + a * b, x * y + z) T3("a*b+e*a", a * b + e * a, x * y + z * x) T3("a*b-e", a * b - e, x * y - z)
  T3("(a+b)*e", (a + b) * e, (x + y) * z) T3("e-a*b", e - a * b, z - x * y) T3("a*b+(e+a)", a * b + (e + a), x * y + z + x)
  T3("a*b+e*b+a", a * b + e * b + a, x * y + z * y + x) T3("a+(b+e*a)", a + (b + e * a), x + y + z * x) T3("-(a*b)+e", -(a * b) + e, -(x * y) + z)
  T3("a*T(2)+e", a * T(2) + e, x * cld(2) + z) T3("T(3)*a+b*T(2)", T(3) * a + b * T(2) + e, cld(3) * x + y * cld(2) + z) T3("T(4)+a*b", T(4) + a * b, cld(4) + x * y) T3("a*b+T(4)", a * b + T(4), cld(4) + x * y)
  T3("ma(a,s,e)", ma(a, T(3), e), x * cld(3) + z) T3("am(a,b,s)", am(a, b, T(2)), (x + y) * cld(2)) T3("msb(s,b,e)", msb(T(2), b, e), cld(2) * y - z)
#undef T3
}
template <typename T, int D, int KR, int KB> void comp(Ctx &c)
{
  auto I = ints<T>(-9, 9); auto NZ = ints<T>(1, 8, true);
#define C2(N, TOL) cp<T, T, D, KR, KB>(c, #N "=", [](auto d, auto const &b) { d N##= b;}, [](T x, T y) { return W(x) N W(y);}, I, NZ, TOL); \
                 cs<T, T, D, KR>(c, #N "=", [](auto d, T s) { d N##= s;}, [](T x, T y) { return W(x) N W(y);}, I, NZ, TOL); \
                 cp<T, T, D, KR, KB>(c, #N "=expr", [](auto d, auto const &b) { d N##= b + T(1);}, [](T x, T y) { return W(x) N (W(y) + cld(1));}, I, NZ, TOL);
  C2(+, EXACT) C2(-, EXACT) C2(*, EXACT) C2(/, T64)
#undef C2
  cs<T, T, D, KR>(c, "=scalar", [](auto d, T s) { d = s;}, [](T, T y) { return W(y);}, I, NZ, EXACT);
}
void vt_main(Ctx &c)
{
#if PSUB == 0
  ter<float, 1, 0, 1, 0, 3>(c); ter<cd, 2, 1, 0, 8, 4>(c);
#elif PSUB == 1
  comp<float, 1, 0, 1>(c); comp<double, 2, 3, 0>(c); comp<cf, 1, 5, 1>(c); comp<double, 3, 1, 0>(c); comp<cf, 2, 8, 0>(c);
  cp<cf, float, 1, 1, 0>(c, "*=mixed", [](auto d, auto const &b) { d *= b;}, [](cf x, float y) { return W(x) * W(y);}, ints<cf>(), ints<float>(), EXACT);
  cp<cd, double, 2, 1, 0>(c, "+=mixed", [](auto d, auto const &b) { d += b;}, [](cd x, double y) { return W(x) + W(y);}, ints<cd>(), ints<double>(), EXACT);
#define CI(N) cp<int, int, 1, 1, 0>(c, #N "=", [](auto d, auto const &b) { d N##= b;}, [](int x, int y) { return x N y;}, ints<int>(-99, 99), ints<int>(-99, 99), EXACT); \
              cp<int, int, 2, 1, 2>(c, #N "=", [](auto d, auto const &b) { d N##= b;}, [](int x, int y) { return x N y;}, ints<int>(-99, 99), ints<int>(-99, 99), EXACT); \
              cp<int, int, 3, 0, 1>(c, #N "=", [](auto d, auto const &b) { d N##= b;}, [](int x, int y) { return x N y;}, ints<int>(-99, 99), ints<int>(-99, 99), EXACT); \
              cs<int, int, 1, 1>(c, #N "=", [](auto d, int s) { d N##= s;}, [](int x, int y) { return x N y;}, ints<int>(-99, 99), ints<int>(-99, 99), EXACT); \
              cs<int, int, 2, 3>(c, #N "=", [](auto d, int s) { d N##= s;}, [](int x, int y) { return x N y;}, ints<int>(-99, 99), ints<int>(-99, 99), EXACT); \
              cs<int, int, 3, 1>(c, #N "=", [](auto d, int s) { d N##= s;}, [](int x, int y) { return x N y;}, ints<int>(-99, 99), ints<int>(-99, 99), EXACT);
  CI(&) CI(|) CI(^)
#else
  Dom<bool> Z{0, 1, true, false}; auto I = ints<float>(-5, 5);
  te<float, bool, float, float, 1, 0, 0, 1, 0>(c, "ite", EX3(ite(a, b, e)), [](bool x, float y, float z) { return x ? y : z;}, Z, I, I, EXACT);
  te<cd, bool, cd, cd, 2, 0, 1, 0, 4>(c, "ite", EX3(ite(a, b, e)), [](bool x, cd y, cd z) { return x ? y : z;}, Z, ints<cd>(), ints<cd>(), EXACT);
  te<float, float, float, float, 1, 0, 0, 1, 0>(c, "ite(lt)", EX3(ite(a < b, b * e, e - a)), [](float x, float y, float z) { return x < y ? y * z : z - x;}, I, I, I, EXACT);
  te<double, float, double, double, 1, 0, 0, 1, 0>(c, "ma-mixed", EX3(a * b + e), [](float x, double y, double z) { return ld(x) * y + z;}, in<float>(-5, 5), in<double>(-5, 5), in<double>(-5, 5), Tol(64, 30));
  te<cf, cf, float, cf, 1, 5, 0, 1, 0>(c, "ma-mixed", EX3(a * b + e), [](cf x, float y, cf z) { return W(x) * W(y) + W(z);}, ints<cf>(), ints<float>(), ints<cf>(), EXACT);
  te<cf, float, float, cf, 2, 8, 0, 1, 0>(c, "ma-mixed", EX3(a * b + e), [](float x, float y, cf z) { return W(x) * W(y) + W(z);}, ints<float>(), ints<float>(), ints<cf>(), EXACT);
  te<cf, cf, cf, cf, 3, 6, 0, 1, 2>(c, "a*conj(b)+e", EX3(a * conj(b) + e), [](cf x, cf y, cf z) { return W(x) * std::conj(W(y)) + W(z);}, ints<cf>(), ints<cf>(), ints<cf>(), EXACT);
  te<float, cf, cf, cf, 1, 1, 0, 5, 1>(c, "real(a)*imag(b)+magsq(e)", EX3(real(a) * imag(b) + magsq(e)), [](cf x, cf y, cf z) { return ld(x.real()) * y.imag() + std::norm(W(z));}, ints<cf>(), ints<cf>(), ints<cf>(), EXACT);
  un<float, float, 1, 0, 1>(c, "unary-fp", EX(vsip::unary<float>(uf1, a)), [](float x) { return 2 * x + 1;}, I, EXACT);
  un<float, float, 2, 1, 0>(c, "unary-obj", EX(vsip::unary<float>(UF1(3), a)), [](float x) { return 3 * x;}, I, EXACT);
  un<double, float, 1, 0, 1>(c, "unary-lambda", EX(vsip::unary<double>(std::function<double(float)>([](float q) { return q * .5;}), a)), [](float x) { return x * .5L;}, I, EXACT);
  bi<float, float, float, 1, 0, 1, 0>(c, "binary-fp", EX2(vsip::binary<float>(uf2, a, b)), [](float x, float y) { return 3 * x - y;}, I, I, EXACT);
  bi<float, float, float, 2, 1, 0, 4>(c, "binary-obj", EX2(vsip::binary<float>(UF2(), a, b)), [](float x, float y) { return 2 * x + 5 * y;}, I, I, EXACT);
  te<float, float, float, float, 1, 0, 1, 0, 3>(c, "ternary-fp", EX3(vsip::ternary<float>(uf3, a, b, e)), [](float x, float y, float z) { return x * y - 2 * z;}, I, I, I, EXACT);
  te<float, float, float, float, 2, 0, 1, 0, 3>(c, "ternary-fp", EX3(vsip::ternary<float>(uf3, a, b, e)), [](float x, float y, float z) { return x * y - 2 * z;}, I, I, I, EXACT);
#endif
}
#elif PGRP == 6 // storage combinations x nested expressions
// one function object per nested expression keeps the number of distinct
// expression types bounded; PSUB selects the dimension
template <typename T, int D, int KR, int KA, int KB, int KC> void combo(Ctx &c)
{
  auto I = ints<T>(-4, 4);
#define T3(N, E, F) te<T, T, T, T, D, KR, KA, KB, KC>(c, N, EX3(E), [](T x_, T y_, T z_) { cld x = W(x_), y = W(y_), z = W(z_); return F;}, I, I, I, EXACT, 3);
  T3("a+b*e-a", a + b * e - a, x + y * z - x)
  T3("mag(a)-b", sq(a - b) + T(2) * e, (x - y) * (x - y) + cld(2) * z)
  T3("ma(a,b,-e)", ma(a, -b, e + a), x * -y + (z + x))
#undef T3
}
template <typename T, int D> void sweep(Ctx &c);
template <> void sweep<float, 1>(Ctx &c)
{ combo<float, 1, 0, 0, 0, 0>(c); combo<float, 1, 1, 0, 1, 3>(c); combo<float, 1, 4, 2, 7, 1>(c); combo<float, 1, 8, 9, 0, 2>(c); combo<float, 1, 9, 8, 4, 6>(c); combo<float, 1, 7, 3, 0, 0>(c);}
template <> void sweep<cf, 1>(Ctx &c)
{ combo<cf, 1, 5, 0, 5, 1>(c); combo<cf, 1, 0, 5, 5, 9>(c); combo<cf, 1, 9, 6, 2, 3>(c); combo<cf, 1, 6, 6, 0, 5>(c); combo<cf, 1, 4, 7, 1, 9>(c);}
template <> void sweep<double, 2>(Ctx &c)
{ combo<double, 2, 0, 0, 0, 0>(c); combo<double, 2, 1, 1, 1, 1>(c); combo<double, 2, 0, 1, 2, 3>(c); combo<double, 2, 1, 0, 4, 5>(c); combo<double, 2, 2, 6, 0, 7>(c); combo<double, 2, 3, 3, 11, 10>(c); combo<double, 2, 5, 5, 4, 0>(c);}
template <> void sweep<cf, 2>(Ctx &c)
{ combo<cf, 2, 8, 8, 0, 9>(c); combo<cf, 2, 9, 0, 1, 8>(c); combo<cf, 2, 0, 9, 8, 2>(c); combo<cf, 2, 6, 1, 4, 8>(c); combo<cf, 2, 11, 7, 3, 5>(c);}
template <> void sweep<float, 3>(Ctx &c)
{ combo<float, 3, 0, 0, 0, 0>(c); combo<float, 3, 1, 0, 2, 3>(c); combo<float, 3, 4, 5, 7, 0>(c); combo<float, 3, 7, 1, 1, 4>(c);}
template <> void sweep<cd, 3>(Ctx &c)
{ combo<cd, 3, 6, 0, 6, 1>(c); combo<cd, 3, 2, 6, 5, 3>(c); combo<cd, 3, 0, 4, 7, 6>(c);}
// subviews of expressions: reading part of an unevaluated expression
template <int K> void partial1(Ctx &c)
{
  for (int it = 0; it < c.n(60); ++it)
  {
    long n[3] = {c.rng.range(1, 30), 1, 1};
    auto a = ZooD<1, float>::template mk<K>(c.rng, n); auto b = ZooD<1, float>::template mk<0>(c.rng, n);
    auto &ea = erase(a); auto &eb = erase(b);
    auto x = rvals<float>(c.rng, n[0]), y = rvals<float>(c.rng, n[0]); ea.setup(x); eb.setup(y);
    Domain<1> d = rdom(c.rng, n[0]);
    c.begin(str("subset of a vector expression ", n[0], " ", a.what, " at ", sdom(d)));
    auto e = a.v * b.v + a.v; auto s = e.get(d);
    auto got = readall(s); bool ok = got.size() == d.length();
    for (size_t i = 0; ok && i < got.size(); ++i) { long k = long(d.first()) + long(i) * long(d.stride()); ok = got[i] == x[k] * y[k] + x[k];}
    vsip::Vector<float> w(d.length(), -1.f); w = s;
    auto got2 = readall(w); if (ok) ok = got2 == got;
    auto e2 = -(ite(a.v < b.v, a.v, b.v * 2.f)); auto s2 = e2.get(d); auto g3 = readall(s2);
    for (size_t i = 0; ok && i < g3.size(); ++i) { long k = long(d.first()) + long(i) * long(d.stride()); ok = g3[i] == -(x[k] < y[k] ? x[k] : y[k] * 2);}
    if (ok) c.ok(c.label); else c.fail("partial1", "subset of expression differs");
  }
}
template <int K> void partial2(Ctx &c)
{
  for (int it = 0; it < c.n(60); ++it)
  {
    long n[3] = {c.rng.range(1, 9), c.rng.range(1, 9), 1};
    auto a = ZooD<2, cf>::template mk<K>(c.rng, n); auto b = ZooD<2, float>::template mk<1>(c.rng, n);
    auto &ea = erase(a); auto &eb = erase(b);
    auto x = rvals<cf>(c.rng, n[0] * n[1]); auto y = rvals<float>(c.rng, n[0] * n[1]); ea.setup(x); eb.setup(y);
    auto val = [&](long i, long j) { long k = i * n[1] + j; return conj(x[k]) * y[k] + x[k] * 2.f;};
    auto e = conj(a.v) * b.v + a.v * 2.f;
    Domain<1> d0 = rdom(c.rng, n[0]), d1 = rdom(c.rng, n[1]); long r = c.rng.range(0, n[0] - 1), q = c.rng.range(0, n[1] - 1);
    c.begin(str("parts of a matrix expression ", sshape(2, n), " ", a.what, " ", sdom(d0), ",", sdom(d1), " row ", r, " col ", q));
    std::string bad;
    auto s = e.get(Domain<2>(d0, d1)); auto g = readall(s); vsip::Matrix<cf> w(d0.length(), d1.length(), cf(7)); w = s; auto g2 = readall(w);
    for (long i = 0; i < long(d0.length()); ++i) for (long j = 0; j < long(d1.length()); ++j)
    { cf v = val(long(d0.first()) + i * long(d0.stride()), long(d1.first()) + j * long(d1.stride())); long k = i * d1.length() + j; if (g[k] != v) bad = "subset get"; if (g2[k] != v) bad = "subset assigned";}
    auto er = readall(e.row(r)); for (long j = 0; j < n[1]; ++j) if (er[j] != val(r, j)) bad = "row";
    auto ec = readall(e.col(q)); for (long i = 0; i < n[0]; ++i) if (ec[i] != val(i, q)) bad = "col";
    auto et = e.transpose(); if (long(et.size(0)) != n[1] || long(et.size(1)) != n[0]) bad = "transpose size";
    else { auto t = readall(et); for (long i = 0; i < n[0]; ++i) for (long j = 0; j < n[1]; ++j) if (t[j * n[0] + i] != val(i, j)) bad = "transpose";
           vsip::Matrix<cf> wt(n[1], n[0], cf(3)); wt = et; if (readall(wt) != t) bad = "transpose assigned";
           vsip::Matrix<cf, vsip::Dense<2, cf, vsip::col2_type>> wc(n[1], n[0], cf(3)); wc = et; if (readall(wc) != t) bad = "transpose assigned to column-major";}
    vsip::Vector<cf> wr(n[1], cf()); wr = e.row(r); if (readall(wr) != er) bad = "row assigned";
    vsip::Vector<cf> wc(n[0], cf()); wc = e.col(q); if (readall(wc) != ec) bad = "col assigned";
    auto ed = readall(e.diag(0)); for (long i = 0; i < std::min(n[0], n[1]); ++i) if (ed[i] != val(i, i)) bad = "diag";
    auto re = readall(e.real()); auto im = readall(e.imag()); for (long i = 0; i < n[0]; ++i) for (long j = 0; j < n[1]; ++j) { cf v = val(i, j); if (re[i * n[1] + j] != v.real() || im[i * n[1] + j] != v.imag()) bad = "real/imag";}
    if (bad.empty()) c.ok(c.label, 9); else c.fail("partial2:" + bad, "part of an expression differs");
  }
}
template <int K> void partial3(Ctx &c)
{
  for (int it = 0; it < c.n(40); ++it)
  {
    long n[3] = {c.rng.range(1, 6), c.rng.range(1, 6), c.rng.range(1, 6)};
    auto a = ZooD<3, float>::template mk<K>(c.rng, n); auto &ea = erase(a); auto x = rvals<float>(c.rng, n[0] * n[1] * n[2]); ea.setup(x);
    auto e = a.v * 2.f + a.v;
    auto val = [&](long i, long j, long k) { return 3 * x[(i * n[1] + j) * n[2] + k];};
    Domain<1> d0 = rdom(c.rng, n[0]), d1 = rdom(c.rng, n[1]), d2 = rdom(c.rng, n[2]); long p = c.rng.range(0, n[0] - 1), q = c.rng.range(0, n[1] - 1), r = c.rng.range(0, n[2] - 1);
    c.begin(str("parts of a tensor expression ", sshape(3, n), " ", a.what, " ", sdom(d0), ",", sdom(d1), ",", sdom(d2), " at ", p, q, r));
    std::string bad; using vsip::whole_domain;
    auto s = e(Domain<3>(d0, d1, d2)); auto g = readall(s);
    for (long i = 0, l = 0; i < long(d0.length()); ++i) for (long j = 0; j < long(d1.length()); ++j) for (long k = 0; k < long(d2.length()); ++k, ++l)
      if (g[l] != val(long(d0.first()) + i * long(d0.stride()), long(d1.first()) + j * long(d1.stride()), long(d2.first()) + k * long(d2.stride()))) bad = "subset";
    vsip::Matrix<float> m0(n[1], n[2]), m1(n[0], n[2]), m2(n[0], n[1]); m0 = e(p, whole_domain, whole_domain); m1 = e(whole_domain, q, whole_domain); m2 = e(whole_domain, whole_domain, r);
    for (long i = 0; i < n[0]; ++i) for (long j = 0; j < n[1]; ++j) for (long k = 0; k < n[2]; ++k)
    {
      if (i == p && m0.get(j, k) != val(i, j, k)) bad = "slice 0"; if (j == q && m1.get(i, k) != val(i, j, k)) bad = "slice 1"; if (k == r && m2.get(i, j) != val(i, j, k)) bad = "slice 2";
    }
    vsip::Vector<float> v0(n[0]), v1(n[1]), v2(n[2]); v0 = e(whole_domain, q, r); v1 = e(p, whole_domain, r); v2 = e(p, q, whole_domain);
    for (long i = 0; i < n[0]; ++i) if (v0.get(i) != val(i, q, r)) bad = "fibre 0";
    for (long i = 0; i < n[1]; ++i) if (v1.get(i) != val(p, i, r)) bad = "fibre 1";
    for (long i = 0; i < n[2]; ++i) if (v2.get(i) != val(p, q, i)) bad = "fibre 2";
    auto t = e.template transpose<1, 2, 0>(); auto gt = readall(t);
    for (long i = 0, l = 0; i < n[1]; ++i) for (long j = 0; j < n[2]; ++j) for (long k = 0; k < n[0]; ++k, ++l) if (gt[l] != val(k, i, j)) bad = "permutation";
    if (bad.empty()) c.ok(c.label, 8); else c.fail("partial3:" + bad, "part of an expression differs");
  }
}
static void ramps(Ctx &c)
{
  for (int it = 0; it < c.n(60); ++it)
  {
    long n = c.rng.range(1, 60); float a = float(c.rng.range(-20, 20)), b = float(c.rng.range(-9, 9));
    c.begin(str("ramp(", a, ",", b, ",", n, ") in expressions"));
    vsip::Vector<float> v(n); v = vsip::ramp(a, b, n) * 2.f + vsip::ramp(b, a, n);
    Domain<1> d = rdom(c.rng, n); auto s = vsip::ramp(a, b, n).get(d); auto g = readall(s); bool ok = true;
    for (long i = 0; i < n; ++i) ok = ok && v.get(i) == (a + b * i) * 2 + b + a * i;
    for (size_t i = 0; i < g.size(); ++i) ok = ok && g[i] == a + b * (long(d.first()) + long(i) * long(d.stride()));
    if (ok) c.ok(c.label); else c.fail("ramp", "wrong value");
  }
}
static void vmm(Ctx &c)
{
  for (int it = 0; it < c.n(60); ++it)
  {
    long R = c.rng.range(1, 9), C = c.rng.range(1, 9);
    auto xm = rvals<cf>(c.rng, R * C); auto xr = rvals<float>(c.rng, C); auto xc = rvals<cf>(c.rng, R);
    vsip::Matrix<cf, vsip::Dense<2, cf, vsip::col2_type>> m(R, C); vsip::Vector<float> r(C); vsip::Vector<cf> q(R);
    writeall(m, xm); writeall(r, xr); writeall(q, xc);
    c.begin(str("vmmul in expressions ", R, "x", C));
    vsip::Matrix<cf> o(R, C); o = vsip::vmmul<0>(r, m) + vsip::vmmul<1>(q, m) * 2.f; bool ok = true;
    for (long i = 0; i < R; ++i) for (long j = 0; j < C; ++j) ok = ok && o.get(i, j) == xr[j] * xm[i * C + j] + xc[i] * xm[i * C + j] * 2.f;
    vsip::Vector<cf> w(C); long k = c.rng.range(0, R - 1); w = vsip::vmmul<0>(r, m).row(k); for (long j = 0; j < C; ++j) ok = ok && w.get(j) == xr[j] * xm[k * C + j];
    w = vsip::vmmul<1>(q, m).row(k); for (long j = 0; j < C; ++j) ok = ok && w.get(j) == xc[k] * xm[k * C + j];
    vsip::Vector<cf> u(R); k = c.rng.range(0, C - 1); u = vsip::vmmul<0>(r, m).col(k); for (long i = 0; i < R; ++i) ok = ok && u.get(i) == xr[k] * xm[i * C + k];
    u = vsip::vmmul<1>(q, m).col(k); for (long i = 0; i < R; ++i) ok = ok && u.get(i) == xc[i] * xm[i * C + k];
    if (ok) c.ok(c.label, 5); else c.fail("vmmul", "wrong value");
  }
}
void vt_main(Ctx &c)
{
#if PSUB == 0
  sweep<float, 1>(c);
#elif PSUB == 1
  sweep<cf, 1>(c);
#elif PSUB == 2
  sweep<double, 2>(c);
#elif PSUB == 3
  sweep<cf, 2>(c);
#elif PSUB == 4
  sweep<float, 3>(c); sweep<cd, 3>(c);
#else
  partial1<0>(c); partial1<1>(c); partial1<3>(c); partial2<0>(c); partial2<8>(c); partial3<0>(c); partial3<4>(c); ramps(c); vmm(c);
#endif
}
#endif
