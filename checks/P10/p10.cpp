// P10: Fourier transform objects against the defining DFT in long double.
#include "model.hpp"
#include <vsip/signal.hpp>
#include "main.hpp"
using namespace vt;
typedef P_T S;                      // scalar type
typedef std::complex<S> X;
typedef std::complex<long double> L;
static Ctx *C;
template <typename T> L wide(T x) { return L((long double)x, 0);}
template <typename T> L wide(std::complex<T> x) { return L(x.real(), x.imag());}
static void narrow(L v, S &r) { r = S(v.real());}
static void narrow(L v, X &r) { r = X(S(v.real()), S(v.imag()));}

// ---- the model ---------------------------------------------------------------
struct Cube { long n[3]; std::vector<L> x; Cube(long a = 0, long b = 1, long c = 1) { n[0] = a; n[1] = b; n[2] = c; x.assign(a * b * c, L());} };
static void dft_axis(Cube &c, int ax, int sgn)
{
  long N = c.n[ax], st = ax == 0 ? c.n[1] * c.n[2] : ax == 1 ? c.n[2] : 1, tot = long(c.x.size());
  std::vector<L> w(N), y(N);
  for (long k = 0; k < N; ++k)
  { long double a = 2 * sgn * 3.14159265358979323846264338327950288L * k / N; w[k] = L(cosl(a), sinl(a));}
  for (long b = 0; b < tot; ++b)
  {
    if (b / st % N) continue;
    for (long k = 0; k < N; ++k) { L s; for (long j = 0; j < N; ++j) s += c.x[b + j * st] * w[(j * k) % N]; y[k] = s;}
    for (long k = 0; k < N; ++k) c.x[b + k * st] = y[k];
  }
}
static Cube keep_half(Cube const &c, int ax)
{
  Cube r; for (int d = 0; d < 3; ++d) r.n[d] = c.n[d]; r.n[ax] = c.n[ax] / 2 + 1;
  for (long i = 0; i < r.n[0]; ++i) for (long j = 0; j < r.n[1]; ++j) for (long k = 0; k < r.n[2]; ++k)
    r.x.push_back(c.x[(i * c.n[1] + j) * c.n[2] + k]);
  return r;
}
// hermitian extension of half a spectrum along ax (all axes in 'axes' reflected)
static Cube extend(Cube const &h, int ax, long full, unsigned axes)
{
  Cube r(ax == 0 ? full : h.n[0], ax == 1 ? full : h.n[1], ax == 2 ? full : h.n[2]);
  long i[3], l = 0;
  for (i[0] = 0; i[0] < r.n[0]; ++i[0]) for (i[1] = 0; i[1] < r.n[1]; ++i[1]) for (i[2] = 0; i[2] < r.n[2]; ++i[2], ++l)
  {
    bool refl = i[ax] >= h.n[ax];
    long j[3];
    for (int d = 0; d < 3; ++d) j[d] = refl && (axes >> d & 1) ? (r.n[d] - i[d]) % r.n[d] : i[d];
    L v = h.x[(j[0] * h.n[1] + j[1]) * h.n[2] + j[2]];
    r.x[l] = refl ? std::conj(v) : v;
  }
  return r;
}
static double tolerance(Cube const &in, long trans, double scale)
{
  long double s = 0; for (auto &v : in.x) s += std::norm(v);
  double growth = 24 * (2 + std::log2(double(trans) + 1));
#ifdef P_DFT
  // the plain DFT evaluates angles up to 2 pi N in working precision
  growth += 16 * double(trans);
#endif
  return growth * eps_of<S>::get() * double(sqrtl(s)) * std::abs(scale) + 1e-300;
}
// kinds of transform: 0 complex forward, 1 complex inverse, 2 real to complex, 3 complex to real
template <int D, int KIND> struct io;
template <int D> struct io<D, 0> { typedef X I; typedef X O;};
template <int D> struct io<D, 1> { typedef X I; typedef X O;};
template <int D> struct io<D, 2> { typedef S I; typedef X O;};
template <int D> struct io<D, 3> { typedef X I; typedef S O;};
struct Shape { long full[3], in[3], out[3]; int ax; unsigned axes;};   // axes transformed

static Cube expected(Cube const &in, Shape const &s, int kind, double scale)
{
  Cube c = in;
  int sgn = kind == 0 || kind == 2 ? -1 : 1;
  if (kind == 3) c = extend(c, s.ax, s.full[s.ax], s.axes);
  for (int d = 0; d < 3; ++d) if (s.axes >> d & 1) dft_axis(c, d, sgn);
  if (kind == 2) c = keep_half(c, s.ax);
  for (auto &v : c.x) v *= (long double)scale;
  return c;
}
// input data; for half spectra, those of some real data
template <typename I> __attribute__((noinline)) std::vector<I> draw(Shape const &s, int kind)
{
  Rng &r = C->rng;
  long t = s.in[0] * s.in[1] * s.in[2];
  std::vector<I> v;
  int style = int(r.range(0, 5));
  if (kind == 3)
  {
    Cube c(s.full[0], s.full[1], s.full[2]);
    for (auto &e : c.x) e = L(style == 0 ? r.range(-3, 3) : r.sym(), 0);
    for (int d = 0; d < 3; ++d) if (s.axes >> d & 1) dft_axis(c, d, -1);
    c = keep_half(c, s.ax);
    for (auto &e : c.x) { I y; narrow(e, y); v.push_back(y);}
    return v;
  }
  v = style == 0 ? rvals<I>(r, t) : style == 1 ? std::vector<I>(t, I(0)) : rreal<I>(r, t, style == 2 ? 100 : 1);
  if (style == 1) v[r.range(0, t - 1)] = I(1);
  return v;
}
template <typename I> Cube cube(std::vector<I> const &v, long const *n)
{ Cube c(n[0], n[1], n[2]); for (size_t i = 0; i < v.size(); ++i) c.x[i] = wide(v[i]); return c;}
template <typename O> __attribute__((noinline)) std::string cmp(std::vector<O> const &got, Cube const &want, double tol)
{
  if (got.size() != want.x.size()) return str(got.size(), " elements, expected ", want.x.size());
  for (size_t i = 0; i < got.size(); ++i)
    if (!(std::abs(wide(got[i]) - want.x[i]) <= tol)) return str("element #", i, " = ", got[i], " expected ", want.x[i], " tolerance ", tol);
  return "";
}
static std::string KEY;
template <typename O, int D> __attribute__((noinline)) void judge(std::string const &how, Erased<O, D> &e, Cube const &want, double tol)
{
  std::vector<O> got = e.read();
  std::string m = cmp(got, want, tol);
  if (m.empty()) m = e.verify(got);
  if (m.empty()) C->ok(how + " " + C->label, 1 + long(got.size()) / 8); else C->fail(KEY + ":" + how, how + ": " + m);
}
template <typename I, int D> __attribute__((noinline)) void unchanged(std::string const &how, Erased<I, D> &e)
{ std::string m = e.verify(e.values()); if (!m.empty()) C->fail(KEY + ":input-changed", how + ": " + m);}

static Domain<1> fdom(long const *n, kint<1>) { return Domain<1>(C->rng.range(0, 2), C->rng.range(1, 2), n[0]);}
static Domain<2> fdom(long const *n, kint<2>) { return Domain<2>(Domain<1>(C->rng.range(0, 2), C->rng.range(1, 2), n[0]), n[1]);}
static Domain<3> fdom(long const *n, kint<3>) { return Domain<3>(n[0], n[1], n[2]);}
static long extent1(int D)
{
  Rng &r = C->rng;
  static long const big[] = {64, 100, 127, 128, 60, 97, 75, 96};
  if (r.coin(1, 10)) return 1;
  if (D == 1 && r.coin(1, 3)) return r.coin(1, 6) ? 256 : big[r.range(0, 7)];
  if (D == 2 && r.coin(1, 6)) return r.range(10, 32);
  return r.range(2, D == 1 ? 33 : D == 2 ? 9 : 6);
}
static Shape shape(int D, int kind, int ax, bool multiple)
{
  Shape s; s.ax = ax;
  for (int d = 0; d < 3; ++d) s.full[d] = d < D ? extent1(D) : 1;
  s.axes = multiple ? 1u << ax : (1u << D) - 1;
  for (int d = 0; d < 3; ++d) s.in[d] = s.out[d] = s.full[d];
  if (kind == 2) s.out[ax] = s.full[ax] / 2 + 1;
  if (kind == 3) s.in[ax] = s.full[ax] / 2 + 1;
  return s;
}
static double pickscale(Shape const &s)
{
  long t = 1; for (int d = 0; d < 3; ++d) if (s.axes >> d & 1) t *= s.full[d];
  switch (C->rng.range(0, 3)) { case 0: return 1; case 1: return double(S(1.0 / t)); case 2: return -2; default: return double(S(C->rng.sym() * 3));}
}
template <typename F> void sizes_ok(F &f, Shape const &s, int D, double scale, bool fwd)
{
  for (int d = 0; d < D; ++d)
  {
    if (long(f.input_size()[d].size()) != s.in[d] || f.input_size()[d].first() != 0 || f.input_size()[d].stride() != 1)
      C->fail(KEY + ":input_size", str("dimension ", d, ": ", f.input_size()[d].size(), " expected ", s.in[d]));
    if (long(f.output_size()[d].size()) != s.out[d] || f.output_size()[d].first() != 0 || f.output_size()[d].stride() != 1)
      C->fail(KEY + ":output_size", str("dimension ", d, ": ", f.output_size()[d].size(), " expected ", s.out[d]));
  }
  if (double(f.scale()) != scale) C->fail(KEY + ":scale", "reported scale");
  if (f.forward() != fwd) C->fail(KEY + ":forward", "reported direction");
}
// the object types
template <int D> struct cview; template <> struct cview<1> { template <typename T, typename B> using t = vsip::const_Vector<T, B>;};
#ifdef P_FFTM
template <int D, int KIND, int AX, vsip::return_mechanism_type R, unsigned N> struct obj
{ typedef vsip::Fftm<typename io<D, KIND>::I, typename io<D, KIND>::O, AX == 1 ? vsip::row : vsip::col, KIND == 0 || KIND == 2 ? vsip::fft_fwd : vsip::fft_inv, R, N> type;};
static bool const multiple = true;
#else
template <int D, typename I, typename O, int S_, vsip::return_mechanism_type R, unsigned N> struct fobj;
template <typename I, typename O, int S_, vsip::return_mechanism_type R, unsigned N> struct fobj<1, I, O, S_, R, N> { typedef vsip::Fft<vsip::const_Vector, I, O, S_, R, N> type;};
template <typename I, typename O, int S_, vsip::return_mechanism_type R, unsigned N> struct fobj<2, I, O, S_, R, N> { typedef vsip::Fft<vsip::const_Matrix, I, O, S_, R, N> type;};
template <typename I, typename O, int S_, vsip::return_mechanism_type R, unsigned N> struct fobj<3, I, O, S_, R, N> { typedef vsip::Fft<vsip::const_Tensor, I, O, S_, R, N> type;};
template <int D, int KIND, int AX, vsip::return_mechanism_type R, unsigned N> struct obj
{ typedef typename fobj<D, typename io<D, KIND>::I, typename io<D, KIND>::O, KIND == 0 ? vsip::fft_fwd : KIND == 1 ? vsip::fft_inv : AX, R, N>::type type;};
static bool const multiple = false;
#endif
template <int D> struct newview;
template <typename F, typename V> __attribute__((noinline)) void in_place(F &f, V v, std::true_type) { f(v);}
template <typename F, typename V> void in_place(F &, V, std::false_type) {}

template <int D, int KIND, int AX, int KI, int KO> __attribute__((noinline)) void by_ref()
{
  typedef typename io<D, KIND>::I I; typedef typename io<D, KIND>::O O;
  typedef std::integral_constant<bool, (KIND < 2)> CC;
  typedef typename obj<D, KIND, AX, vsip::by_reference, (KI + KO) % 3 == 0 ? 12 : (KI + KO) % 3 == 1 ? 1 : 0>::type F;
  Shape s = shape(D, KIND, AX, multiple);
  if ((KI + KO) % 3 == 2) for (int d = 0; d < D; ++d) if (s.full[d] > 32) { s = shape(D, KIND, AX, multiple); d = -1;}   // patient planning is slow
  double sc = pickscale(s);
  F f(fdom(s.full, kint<D>()), S(sc));
  auto a = erase(ZooD<D, I>::template mk<KI>(C->rng, s.in));
  auto r = erase(ZooD<D, O>::template mk<KO>(C->rng, s.out));
  auto p = erase(ZooD<D, I>::template mk<0>(C->rng, s.in));
  auto q = erase(ZooD<D, O>::template mk<0>(C->rng, s.out));
  long tr = 1; for (int d = 0; d < 3; ++d) if (s.axes >> d & 1) tr *= s.full[d];
  KEY = str(multiple ? "fftm" : "fft", D, "d:", KIND == 0 ? "cc-fwd" : KIND == 1 ? "cc-inv" : KIND == 2 ? "rc" : "cr");
  C->begin(str(KEY, AX, " by reference ", tname<S>::get(), " ", sshape(D, s.full), " ", a.what, " -> ", r.what, sc == 1 ? "" : " scaled"));
  sizes_ok(f, s, D, sc, KIND == 0 || KIND == 2);
  for (int rep = 0; rep < 3; ++rep)
  {
    std::vector<I> v = draw<I>(s, KIND);
    Cube in = cube(v, s.in), want = expected(in, s, KIND, sc);
    double tol = tolerance(in, tr, sc) * (KIND == 3 ? 2 : 1);
    int op = int(C->rng.range(0, 3)); if (rep == 0) op = 0;
    Erased<I, D> *src = op == 0 || op == 2 ? (Erased<I, D> *)&a : (Erased<I, D> *)&p;
    src->guards(C->rng); src->setup(v);
    if (CC::value && C->rng.coin(1, 3))
    {
      if (src == (Erased<I, D> *)&a) in_place(f, a.v, CC()); else in_place(f, p.v, CC());
      std::vector<I> got = src->read();
      std::string m = cmp(got, want, tol); if (m.empty()) m = src->verify(got);
      if (m.empty()) C->ok("in place " + C->label, 2); else C->fail(KEY + ":in-place", "in place: " + m);
      continue;
    }
    Erased<O, D> *dst = op == 0 || op == 1 ? (Erased<O, D> *)&r : (Erased<O, D> *)&q;
    dst->guards(C->rng); dst->setup(std::vector<O>(s.out[0] * s.out[1] * s.out[2], O(77)));
    switch (op) { case 0: f(a.v, r.v); break; case 1: f(p.v, r.v); break; case 2: f(a.v, q.v); break; default: f(p.v, q.v);}
    judge(str("out of place ", op), *dst, want, tol);
    unchanged("out of place", *src);
  }
}
template <int D, int KIND, int AX, int KI, int KO> __attribute__((noinline)) void by_val()
{
  typedef typename io<D, KIND>::I I; typedef typename io<D, KIND>::O O;
  typedef typename obj<D, KIND, AX, vsip::by_value, 1>::type F;
  Shape s = shape(D, KIND, AX, multiple);
  double sc = pickscale(s);
  F f(fdom(s.full, kint<D>()), S(sc));
  auto a = erase(ZooD<D, I>::template mk<KI>(C->rng, s.in));
  auto r = erase(ZooD<D, O>::template mk<KO>(C->rng, s.out));
  auto p = erase(ZooD<D, I>::template mk<0>(C->rng, s.in));
  auto q = erase(ZooD<D, O>::template mk<0>(C->rng, s.out));
  long tr = 1; for (int d = 0; d < 3; ++d) if (s.axes >> d & 1) tr *= s.full[d];
  KEY = str(multiple ? "fftm" : "fft", D, "d:", KIND == 0 ? "cc-fwd" : KIND == 1 ? "cc-inv" : KIND == 2 ? "rc" : "cr");
  C->begin(str(KEY, AX, " by value ", tname<S>::get(), " ", sshape(D, s.full), " ", a.what, " -> ", r.what, sc == 1 ? "" : " scaled"));
  sizes_ok(f, s, D, sc, KIND == 0 || KIND == 2);
  for (int rep = 0; rep < 3; ++rep)
  {
    std::vector<I> v = draw<I>(s, KIND), u = draw<I>(s, KIND);
    std::vector<O> w = rreal<O>(C->rng, s.out[0] * s.out[1] * s.out[2]);
    Cube in = cube(v, s.in), want = expected(in, s, KIND, sc);
    double tol = tolerance(in, tr, sc) * (KIND == 3 ? 2 : 1);
    a.guards(C->rng); a.setup(v); r.guards(C->rng); r.setup(w); p.guards(C->rng); p.setup(u); q.setup(w);
    // 0 assign  1 expression operand  2 transform of an expression  3 two transforms, one object  4 compound  5 result passed on
    int op = int(C->rng.range(0, 5)); if (rep == 0) op = 0;
    switch (op)
    {
      case 0: r.v = f(a.v); break;
      case 1: r.v = f(a.v) * S(2) + q.v;
        for (size_t i = 0; i < w.size(); ++i) want.x[i] = want.x[i] * 2.0L + wide(w[i]); tol = tol * 2 + 4 * eps_of<S>::get() * (1 + tol / eps_of<S>::get() / 20); break;
      case 2: { r.v = f(a.v + p.v);
        Cube i2 = cube(u, s.in); for (size_t i = 0; i < v.size(); ++i) i2.x[i] += in.x[i];
        want = expected(i2, s, KIND, sc); tol = tol * 2 + tolerance(cube(u, s.in), tr, sc) * 4; break; }
      case 3: { r.v = f(a.v) - f(p.v);
        Cube e2 = expected(cube(u, s.in), s, KIND, sc); for (size_t i = 0; i < e2.x.size(); ++i) want.x[i] -= e2.x[i];
        tol = 2 * tol + 4 * tolerance(cube(u, s.in), tr, sc); break; }
      case 4: r.v += f(a.v); for (size_t i = 0; i < w.size(); ++i) want.x[i] += wide(w[i]); tol = 2 * tol + 8 * eps_of<S>::get(); break;
      default: { auto x = f(a.v); auto y = x; r.v = y; break; }
    }
    judge(str("by value ", op), r, want, tol);
    unchanged("by value", a); unchanged("by value", p); unchanged("by value", q);
  }
}
template <int D, int KIND, int AX, int LO, int HI> struct each
{ static void go(long n)
  {
    int const NI = ZooD<D, typename io<D, KIND>::I>::count, NO = ZooD<D, typename io<D, KIND>::O>::count;
    for (long i = 0; i < n; ++i)
    {
      by_ref<D, KIND, AX, LO % NI, (LO * 5 + 2 + AX + KIND) % NO>();
      if (LO % 2 == P_BV % 2) by_val<D, KIND, AX, (LO + 1) % NI, (LO * 7 + 3 + AX + KIND) % NO>();
    }
    each<D, KIND, AX, LO + 1, HI>::go(n);
  } };
template <int D, int KIND, int AX, int HI> struct each<D, KIND, AX, HI, HI> { static void go(long) {} };
void vt_main(Ctx &c)
{
  C = &c;
  each<P_D, P_KIND, P_AX, P_LO, P_HI>::go(c.n(P_REPS));
}
