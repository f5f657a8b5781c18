// Expressions over distributed operands, reductions of them, element access and
// collective communication: every processor compares with the serial program.
#include "dist.hpp"
#include <vsip/math.hpp>
#ifdef MODE_V
#include <vsip/signal.hpp>
#endif
#include <list>
#include <vsip/selgen.hpp>
#include <ovxx/parallel/expr.hpp>
#include <vsip/dda.hpp>
#ifndef P_RT
#define P_RT P_T
#endif
#ifndef P_REPS
#define P_REPS 6
#endif
using namespace vd;
using vt::Ctx;
typedef std::function<void(ul const *, ul *)> xlate;
static void nap(vt::Rng &mine) { if (mine.coin(1, 5)) usleep(mine.range(0, 500));}
static void same(ul const *i, ul *o) { for (int d = 0; d < 3; ++d) o[d] = i[d];}
static void swap2(ul const *i, ul *o) { o[0] = i[1]; o[1] = i[0];}
static ul lin(ul const *n, int D, ul const *g) { ul r = 0; for (int d = 0; d < D; ++d) r = r * n[d] + g[d]; return r;}
template <typename T> T num(int v) { return Conv<T>::of(v);}

// a distributed root with the values of all of it
template <typename W> struct TR
{
  typedef typename W::value_type T; typedef typename W::block_type::map_type map_t;
  static int const D = W::dim;
  Model md; map_t map; ul n[3] = {1, 1, 1}; W view; std::vector<T> val;
  TR(vt::Rng &rng, ul const *m) : map(Mk<map_t>::make(rng, D, m, md)), view(V<W::dim>::template mk<W>(m, map)) { for (int d = 0; d < D; ++d) n[d] = m[d]; val.resize(n[0] * n[1] * n[2]);}
  T &at(ul const *g) { return val[lin(n, D, g)];}
  void store() { typename W::local_type l = view.local(); owned(md, [&](ul const *i, ul const *g) { lput(l, i, at(g));});}
  void fill(vt::Rng &rng, int m = 1000) { for (ul i = 0; i < val.size(); ++i) val[i] = num<T>(int(rng.range(-m, m))); store();}
  bool verify(std::string &why, char const *what)
  {
    typename W::local_type l = view.local(); bool good = true;
    owned(md, [&](ul const *i, ul const *g) { T got = lget(l, i); if (got == at(g)) return;
      if (good) why = str(what, " at ", g[0], D > 1 ? str(",", g[1]) : "", D > 2 ? str(",", g[2]) : "", " holds ", got, " expected ", at(g));
      good = false;});
    return good;
  }
};
struct Dom { ul f[3], s[3], n[3];
  Dom(vt::Rng &r, int D, ul const *root, ul const *len) { for (int d = 0; d < D; ++d) { n[d] = len[d]; ul smax = len[d] > 1 ? (root[d] - 1) / (len[d] - 1) : 1; s[d] = r.range(1, std::min<ul>(3, smax)); f[d] = r.range(0, root[d] - 1 - (len[d] - 1) * s[d]); if (r.coin(1, 4)) { f[d] += (len[d] - 1) * s[d]; s[d] = -s[d];}}}
  xlate x() const { Dom c(*this); return [c](ul const *i, ul *o) { for (int d = 0; d < 3; ++d) o[d] = c.f[d] + i[d] * c.s[d];};}
  Domain<1> one(int d) const { return Domain<1>(f[d], s[d], n[d]);}
  std::string lab(int D) const { std::string r; for (int d = 0; d < D; ++d) r += str("(", f[d], ",", long(s[d]), ",", n[d], ")"); return r;}
};
template <dimension_type D> struct MD;
template <> struct MD<1> { static Domain<1> of(Dom const &d) { return d.one(0);}};
template <> struct MD<2> { static Domain<2> of(Dom const &d) { return Domain<2>(d.one(0), d.one(1));}};
template <> struct MD<3> { static Domain<3> of(Dom const &d) { return Domain<3>(d.one(0), d.one(1), d.one(2));}};
static void shape(vt::Rng &r, int D, ul *n) { for (int i = 0; i < D; ++i) n[i] = r.coin(1, 6) ? r.range(1, 3) : r.range(1, D == 1 ? 40 : D == 2 ? 10 : 5);}
static void bigger(vt::Rng &r, int D, ul const *n, ul *m) { for (int i = 0; i < D; ++i) m[i] = n[i] + r.range(0, n[i] + 2);}
struct Job { Ctx &c; vt::Rng &rng; vt::Rng &mine; std::string lab;};

#ifdef MODE_E
// run an expression statement l op= f(a, b) rounds times; f(old, a, b) is its serial meaning
template <typename LT, typename AT, typename BT>
void go(Job &j, char const *op, TR<LT> &l, TR<AT> &a, TR<BT> &b, ul const *sh, xlate fl, xlate fa, xlate fb,
        std::function<void()> run, std::function<typename LT::value_type(typename LT::value_type, typename AT::value_type, typename BT::value_type, ul const *)> f)
{
  int rounds = j.rng.range(1, 3);
  std::string lab = str(op, " x", rounds, " ", l.md.lab, " = ", a.md.lab, " , ", b.md.lab, " ", j.lab), why;
  j.c.begin(lab);
  bool good = true;
  l.fill(j.rng);
  for (int k = 0; k < rounds && good; ++k)
  {
    if (!k || j.rng.coin()) { a.fill(j.rng); b.fill(j.rng);}
    if (k && j.rng.coin()) l.fill(j.rng);
    nap(j.mine);
    run();
    box(sh, LT::dim, [&](ul const *i) { ul x[3], y[3], z[3]; fl(i, x); fa(i, y); fb(i, z); l.at(x) = f(l.at(x), a.at(y), b.at(z), i);});
    good = l.verify(why, "destination") && a.verify(why, "first operand") && b.verify(why, "second operand");
    j.c.count("statements");
  }
  if (good) j.c.ok(lab); else j.c.fail(op, str(lab, ": ", why));
}
template <typename LW, typename RW> struct Exprs
{
  typedef typename LW::value_type T; typedef typename RW::value_type U;
  static int const D = LW::dim;
  static void go0(Job &j, char const *op, vt::Rng &r, std::function<void(LW &, RW &, LW &)> st, std::function<T(T, U, T, ul const *)> f)
  {
    ul n[3]; shape(r, D, n); TR<LW> l(r, n); TR<RW> a(r, n); TR<LW> b(r, n); j.lab = "";
    go<LW, RW, LW>(j, op, l, a, b, n, same, same, same, [&] { st(l.view, a.view, b.view);}, f);
  }
  static void go1(Job &j, char const *op, vt::Rng &r, std::function<void(LW &, RW &, RW &)> st, std::function<T(T, U, U, ul const *)> f)
  {
    ul n[3]; shape(r, D, n); TR<LW> l(r, n); TR<RW> a(r, n), b(r, n); j.lab = "";
    go<LW, RW, RW>(j, op, l, a, b, n, same, same, same, [&] { st(l.view, a.view, b.view);}, f);
  }
  static void all(Job &j, vt::Rng &r)
  {
    go0(j, "l=a+b", r, [](LW &l, RW &a, LW &b) { l = a + b;}, [](T, U a, T b, ul const *) { return T(a + b);});
    T k = num<T>(r.range(-9, 9)), k2 = num<T>(r.range(-9, 9));
    switch (r.range(0, 4))
    {
      case 0: go1(j, "l=-(a-b)", r, [](LW &l, RW &a, RW &b) { l = -(a - b);}, [](T, U a, U b, ul const *) { return T(-(a - b));}); break;
      case 1: go0(j, "l=k*a+k2+b", r, [k, k2](LW &l, RW &a, LW &b) { l = k * a + k2 + b;}, [k, k2](T, U a, T b, ul const *) { return T(k * T(a) + k2 + b);}); break;
      case 2: go1(j, "l+=a", r, [](LW &l, RW &a, RW &) { l += a;}, [](T o, U a, U, ul const *) { return T(o + T(a));}); break;
      case 3: go1(j, "l=l-a", r, [](LW &l, RW &a, RW &) { l = l - a;}, [](T o, U a, U, ul const *) { return T(o - T(a));}); break;
      default: go0(j, "l=a*b", r, [](LW &l, RW &a, LW &b) { l = a * b;}, [](T, U a, T b, ul const *) { return T(T(a) * b);});
    }
#ifndef P_FEW
    switch (r.range(0, 4))
    {
      case 0: go1(j, "l=am(a,b,a)", r, [](LW &l, RW &a, RW &b) { l = am(a, b, a);}, [](T, U a, U b, ul const *) { return T((a + b) * a);}); break;
      case 1: go0(j, "l=k", r, [k](LW &l, RW &, LW &) { l = k;}, [k](T, U, T, ul const *) { return k;}); break;
      case 2: go0(j, "l-=b*k", r, [k](LW &l, RW &, LW &b) { l -= b * k;}, [k](T o, U, T b, ul const *) { return T(o - b * k);}); break;
      case 3: go0(j, "l*=k", r, [k](LW &l, RW &, LW &) { l *= k;}, [k](T o, U, T, ul const *) { return T(o * k);}); break;
      default: go0(j, "l=-a", r, [](LW &l, RW &a, LW &) { l = -a;}, [](T, U a, T, ul const *) { return T(-a);});
    }
    prebound(j, r);
    ramps(j, r, Domain<D>());
#endif
  }
  static void prebound(Job &j, vt::Rng &r)
  {
    ul n[3]; shape(r, D, n); TR<LW> l(r, n), b(r, n); TR<RW> a(r, n); j.lab = "";
    auto e = a.view + b.view;
    typedef typename decltype(e)::block_type EB;
    std::unique_ptr<ovxx::parallel::Expression<D, typename LW::block_type, EB> > p(new ovxx::parallel::Expression<D, typename LW::block_type, EB>(l.view, e));
    go<LW, RW, LW>(j, "prebound a+b", l, a, b, n, same, same, same, [&] { (*p)();}, [](T, U a, T b, ul const *) { return T(a + b);});
  }
  template <typename X> static void ramps(Job &, vt::Rng &, X) {}
  static void ramps(Job &j, vt::Rng &r, Domain<1>)
  {
    T s = num<T>(r.range(-9, 9)), k = num<T>(r.range(-3, 3)); ul n[3]; shape(r, 1, n); TR<LW> l(r, n), b(r, n); TR<RW> a(r, n); j.lab = "";
    if (r.coin()) go<LW, RW, LW>(j, "l=ramp", l, a, b, n, same, same, same, [&] { l.view = ramp(s, k, n[0]);}, [=](T, U, T, ul const *i) { return T(s + T(i[0]) * k);});
    else go<LW, RW, LW>(j, "l=ramp+a", l, a, b, n, same, same, same, [&] { l.view = ramp(s, k, n[0]) + a.view;}, [=](T, U a, T, ul const *i) { return T(s + T(i[0]) * k + T(a));});
  }
  static void sub(Job &j, vt::Rng &r)
  {
    ul n[3], na[3], nb[3], nl[3]; shape(r, D, n); bigger(r, D, n, na); bigger(r, D, n, nb); bigger(r, D, n, nl);
    TR<LW> l(r, nl), b(r, nb); TR<RW> a(r, na); Dom x(r, D, nl, n), y(r, D, na, n), z(r, D, nb, n); j.lab = x.lab(D) + y.lab(D) + z.lab(D);
    switch (r.range(0, 2))
    {
      case 0: go<LW, RW, LW>(j, "sub=sub+sub", l, a, b, n, x.x(), y.x(), z.x(), [&] { l.view(MD<D>::of(x)) = a.view(MD<D>::of(y)) + b.view(MD<D>::of(z));}, [](T, U a, T b, ul const *) { return T(T(a) + b);}); break;
      case 1: go<LW, RW, LW>(j, "sub-=sub", l, a, b, n, x.x(), y.x(), z.x(), [&] { l.view(MD<D>::of(x)) -= a.view(MD<D>::of(y));}, [](T o, U a, T, ul const *) { return T(o - T(a));}); break;
      default: go<LW, RW, LW>(j, "sub=k", l, a, b, n, x.x(), y.x(), z.x(), [&] { l.view(MD<D>::of(x)) = T(7);}, [](T, U, T, ul const *) { return T(7);});
    }
  }
};
template <bool> struct Sub { template <typename E> static void run(Job &, vt::Rng &) {}};
template <> struct Sub<true> { template <typename E> static void run(Job &j, vt::Rng &r) { E::sub(j, r);}};
template <typename LM, typename RM> void types(Ctx &c)
{
  typedef typename V<P_D>::of<P_T, Dense<P_D, P_T, P_LO, LM> >::type LW;
  typedef typename V<P_D>::of<P_RT, Dense<P_D, P_RT, P_RO, RM> >::type RW;
  bool const sb = Mk<LM>::blocks && Mk<RM>::blocks;
  vt::Rng mine(c.seed * 77 + c.rank * 1013 + 5);
  for (int k = 0; k < c.n(P_REPS); ++k)
  {
    vt::Rng rng(c.rng.next()); Job j = { c, rng, mine, ""};
    Exprs<LW, RW>::all(j, rng);
    Sub<sb>::template run<Exprs<LW, RW> >(j, rng);
  }
}
#endif

#ifdef MODE_R
template <typename T> struct Red
{
  std::string why;
  template <typename X> void eq(char const *n, X got, X want) { if (!(got == want) && why.empty()) why = str(n, " = ", got, " expected ", want);}
  // got is finite and within rounding of want
  void near(char const *n, double got, double want) { if (!(std::abs(got - want) <= 1e-5 * (1 + std::abs(want))) && why.empty()) why = str(n, " = ", got, " expected ", want);}
};
// the values of the view are x[], small integers, in row-major order over shape n
template <typename V> std::string reduce(V v, std::vector<int> const &x, ul const *n)
{
  typedef typename V::value_type T; dimension_type const D = V::dim;
  Red<T> r; long s = 0, q = 0; int mx = x[0], mn = x[0];
  for (int e : x) { s += e; q += long(e) * e; mx = std::max(mx, e); mn = std::min(mn, e);}
  r.eq("sumval", T(sumval(v)), T(s)); r.eq("sumsqval", T(sumsqval(v)), T(q));
  Index<D> i; ul at[3];
  r.eq("maxval", T(maxval(v, i)), T(mx)); for (int d = 0; d < int(D); ++d) at[d] = i[d];
  if (lin(n, D, at) >= x.size() || x[lin(n, D, at)] != mx) r.eq("maxval index", 1, 0);
  r.eq("minval", T(minval(v, i)), T(mn)); for (int d = 0; d < int(D); ++d) at[d] = i[d];
  if (lin(n, D, at) >= x.size() || x[lin(n, D, at)] != mn) r.eq("minval index", 1, 0);
  if (!std::is_integral<T>::value) { r.near("meanval", double(meanval(v)), double(s) / x.size()); r.near("meansqval", double(meansqval(v)), double(q) / x.size());}
  return r.why;
}
template <typename V> std::string truths(V v, std::vector<int> const &x)
{
  Red<bool> r; int a = ~0, o = 0; for (int e : x) { a &= e; o |= e;}
  if constexpr (std::is_same<typename V::value_type, int>::value) { r.eq("alltrue", int(alltrue(v)), a); r.eq("anytrue", int(anytrue(v)), o);}
  return r.why;
}
template <typename M, typename M2> void types(Ctx &c)
{
  typedef typename V<P_D>::of<P_T, Dense<P_D, P_T, P_LO, M> >::type W;
  typedef typename V<P_D>::of<P_T, Dense<P_D, P_T, P_LO, M2> >::type W2;
  int const D = P_D;
  vt::Rng mine(c.seed * 77 + c.rank * 1013 + 5);
  for (int k = 0; k < c.n(P_REPS); ++k)
  {
    vt::Rng rng(c.rng.next());
    ul n[3]; shape(rng, D, n); TR<W> w(rng, n); TR<W2> w2(rng, n);
    w.fill(rng, 50); w2.fill(rng, 50);
    std::string lab = str("reductions of ", w.md.lab), why; c.begin(lab); nap(mine);
    std::vector<int> x, y; for (auto e : w.val) x.push_back(int(e)); for (ul i = 0; i < x.size(); ++i) y.push_back(int(w.val[i]) - int(w2.val[i]));
    why = reduce(w.view, x, n) + truths(w.view, x);
    if (why.empty()) c.ok(lab); else c.fail("root", str(lab, ": ", why));
    lab = str("reductions of a-b ", w.md.lab, " - ", w2.md.lab); c.begin(lab); nap(mine);
    why = reduce(w.view - w2.view, y, n);
    if (why.empty()) c.ok(lab); else c.fail("expression", str(lab, ": ", why));
    if (Mk<M>::blocks)
    {
      ul m[3]; for (int d = 0; d < D; ++d) m[d] = rng.range(1, n[d]);
      Dom z(rng, D, n, m); lab = str("reductions of ", w.md.lab, " sub ", z.lab(D)); c.begin(lab); nap(mine);
      std::vector<int> s; xlate f = z.x(); box(m, D, [&](ul const *i) { ul g[3]; f(i, g); s.push_back(int(w.at(g)));});
      why = reduce(w.view(MD<P_D>::of(z)), s, m);
      if (why.empty()) c.ok(lab); else c.fail("subview", str(lab, ": ", why));
    }
    w.verify(why, "operand"); if (!why.empty()) c.fail("operand-changed", str(lab, ": ", why));
    c.count("reductions", 20);
  }
}
#endif

#ifdef MODE_G
template <typename W> typename W::value_type vg(W v, ul const *i, Domain<1>) { return v.get(i[0]);}
template <typename W> typename W::value_type vg(W v, ul const *i, Domain<2>) { return v.get(i[0], i[1]);}
template <typename W> typename W::value_type vg(W v, ul const *i, Domain<3>) { return v.get(i[0], i[1], i[2]);}
template <typename W> void vp(W v, ul const *i, typename W::value_type x, Domain<1>) { v.put(i[0], x);}
template <typename W> void vp(W v, ul const *i, typename W::value_type x, Domain<2>) { v.put(i[0], i[1], x);}
template <typename W> void vp(W v, ul const *i, typename W::value_type x, Domain<3>) { v.put(i[0], i[1], i[2], x);}
template <typename W> typename W::value_type vr(W v, ul const *i, Domain<1>) { return v(i[0]);}
template <typename W> typename W::value_type vr(W v, ul const *i, Domain<2>) { return v(i[0], i[1]);}
template <typename W> typename W::value_type vr(W v, ul const *i, Domain<3>) { return v(i[0], i[1], i[2]);}
template <typename W> void vs(W v, ul const *i, typename W::value_type x, Domain<1>) { v(i[0]) = x;}
template <typename W> void vs(W v, ul const *i, typename W::value_type x, Domain<2>) { v(i[0], i[1]) = x;}
template <typename W> void vs(W v, ul const *i, typename W::value_type x, Domain<3>) { v(i[0], i[1], i[2]) = x;}
template <typename W> typename W::value_type vx(W v, ul const *i) { Index<W::dim> x; for (int d = 0; d < int(W::dim); ++d) x[d] = i[d]; return get(v, x);}
// one step on a view of the root: f maps its indices to those of the root
template <typename R, typename W> void step(R &w, vt::Rng &r, W v, ul const *n, xlate f, std::string &why, char const *what)
{
  typedef typename W::value_type T; dimension_type const D = W::dim;
  ul i[3] = {0, 0, 0}, g[3] = {0, 0, 0}; for (int d = 0; d < int(D); ++d) i[d] = r.range(0, n[d] - 1);
  f(i, g);
  T x = num<T>(r.range(-900, 900)), got = T(), want = w.at(g); bool rd = false;
  switch (r.range(0, 5))
  {
    case 0: vp(v, i, x, Domain<D>()); w.at(g) = x; break;
    case 1: vs(v, i, x, Domain<D>()); w.at(g) = x; break;
    case 2: got = vr(v, i, Domain<D>()); rd = true; break;
    case 3: got = vx(v, i); rd = true; break;
    case 4: { ul k[3] = {0, 0, 0}, h[3] = {0, 0, 0}; for (int d = 0; d < int(D); ++d) k[d] = r.range(0, n[d] - 1); f(k, h);   // v(i) = v(k)
      vs(v, i, vg(v, k, Domain<D>()), Domain<D>()); w.at(g) = w.at(h); break;}
    default: got = vg(v, i, Domain<D>()); rd = true;
  }
  if (rd && !(got == want)) why = str(what, " read at ", g[0], D > 1 ? str(",", g[1]) : "", D > 2 ? str(",", g[2]) : "", " gave ", got, " expected ", want);
}
template <typename R> void views(R &w, vt::Rng &r, std::string &why, bool, Domain<1>)
{ step(w, r, w.view, w.n, same, why, "vector");}
template <typename R> void views(R &w, vt::Rng &r, std::string &why, bool, Domain<2>)
{
  ul a = r.range(0, w.n[0] - 1), b = r.range(0, w.n[1] - 1);
  switch (r.range(0, 5))
  {
    case 0: { ul n[1] = {w.n[1]}; step(w, r, w.view.row(a), n, [a](ul const *i, ul *o) { o[0] = a; o[1] = i[0];}, why, "row"); break;}
    case 1: { ul n[1] = {w.n[0]}; step(w, r, w.view.col(b), n, [b](ul const *i, ul *o) { o[0] = i[0]; o[1] = b;}, why, "col"); break;}
    case 2: { ul n[2] = {w.n[1], w.n[0]}; step(w, r, w.view.transpose(), n, swap2, why, "transpose"); break;}
    default: step(w, r, w.view, w.n, same, why, "matrix");
  }
}
template <typename R> void views(R &w, vt::Rng &r, std::string &why, bool, Domain<3>)
{
  ul a = r.range(0, w.n[0] - 1), b = r.range(0, w.n[1] - 1), c = r.range(0, w.n[2] - 1);
  switch (r.range(0, 5))
  {
    case 0: { ul n[2] = {w.n[1], w.n[2]}; step(w, r, w.view(a, whole_domain, whole_domain), n, [a](ul const *i, ul *o) { o[0] = a; o[1] = i[0]; o[2] = i[1];}, why, "plane0"); break;}
    case 1: { ul n[2] = {w.n[0], w.n[2]}; step(w, r, w.view(whole_domain, b, whole_domain), n, [b](ul const *i, ul *o) { o[0] = i[0]; o[1] = b; o[2] = i[1];}, why, "plane1"); break;}
    case 2: { ul n[1] = {w.n[1]}; step(w, r, w.view(a, whole_domain, c), n, [a, c](ul const *i, ul *o) { o[0] = a; o[1] = i[0]; o[2] = c;}, why, "fibre"); break;}
    default: step(w, r, w.view, w.n, same, why, "tensor");
  }
}
template <bool B> struct SubStep { template <typename R> static void run(R &, vt::Rng &, std::string &) {}};
template <> struct SubStep<true> { template <typename R> static void run(R &w, vt::Rng &r, std::string &why)
{
  dimension_type const D = P_D;
  ul m[3]; for (int d = 0; d < int(D); ++d) m[d] = r.range(1, w.n[d]);
  Dom z(r, D, w.n, m); step(w, r, w.view(MD<D>::of(z)), m, z.x(), why, "subview");
}};
template <typename M, typename M2> void types(Ctx &c)
{
  typedef typename V<P_D>::of<P_T, Dense<P_D, P_T, P_LO, M> >::type W;
  int const D = P_D;
  vt::Rng mine(c.seed * 77 + c.rank * 1013 + 5);
  for (int k = 0; k < c.n(P_REPS); ++k)
  {
    vt::Rng rng(c.rng.next());
    ul n[3]; shape(rng, D, n); TR<W> w(rng, n); w.fill(rng);
    int steps = 40; std::string lab = str("history on ", w.md.lab), why; c.begin(lab); nap(mine);
    for (int s = 0; s < steps && why.empty(); ++s)
      if (Mk<M>::blocks && rng.coin(1, 3)) SubStep<Mk<M>::blocks>::run(w, rng, why); else views(w, rng, why, true, Domain<P_D>());
    // finish the history collectively: every processor must have seen the same
    if (why.empty()) w.verify(why, "root");
    c.count("accesses", steps);
    if (why.empty()) c.ok(lab); else { c.fail("element-access", str(lab, ": ", why)); c.finish(); std::exit(0);}   // the other processors may be waiting
  }
}
#endif

#ifdef MODE_D
// direct access to distributed blocks: every processor is presented the whole block
template <typename T> T rd(T const *p, long o, T *) { return p[o];}
template <typename U> complex<U> rd(U const *p, long o, complex<U> *) { return complex<U>(p[2 * o], p[2 * o + 1]);}
template <typename U> complex<U> rd(std::pair<U const *, U const *> p, long o, complex<U> *) { return complex<U>(p.first[o], p.second[o]);}
template <typename U> complex<U> rd(std::pair<U *, U *> p, long o, complex<U> *) { return complex<U>(p.first[o], p.second[o]);}
template <typename T> void wr(T *p, long o, T v) { p[o] = v;}
template <typename U> void wr(U *p, long o, complex<U> v) { p[2 * o] = v.real(); p[2 * o + 1] = v.imag();}
template <typename U> void wr(std::pair<U *, U *> p, long o, complex<U> v) { p.first[o] = v.real(); p.second[o] = v.imag();}
template <typename DA> long off(DA const &d, ul const *g) { long o = 0; for (int k = 0; k < P_D; ++k) o += long(g[k]) * d.stride(k); return o;}
// the presented strides are what was requested
template <typename L, typename DA> std::string form(DA &d, ul const *n)
{
  typedef typename std::conditional<std::is_same<typename L::order_type, ovxx::any_type>::value, P_LO, typename L::order_type>::type O;
  dimension_type const o[3] = { O::impl_dim0, O::impl_dim1, O::impl_dim2};
  for (int k = 0; k < P_D; ++k) if (d.size(k) != n[k]) return str("size ", d.size(k), " of dimension ", k);
  if (L::packing != any_packing && d.stride(o[P_D - 1]) != 1) return "not unit-stride";
  long t = n[o[P_D - 1]];
  for (int k = P_D - 1; k-- > 0;) { if (L::packing == dense && n[o[k]] > 1 && d.stride(o[k]) != t) return str("stride ", d.stride(o[k]), " where dense is ", t); if (L::packing != any_packing && n[o[k]] > 1 && labs(d.stride(o[k])) < t) return "planes overlap"; t *= n[o[k]];}
  return "";
}
template <typename W, typename L, typename V> void access(Job &j, TR<W> &w, V v, ul const *n, xlate f, std::string &why, std::string &trace, char const *lname)
{
  typedef typename W::value_type T; typedef typename V::block_type B;
  int how = j.rng.range(0, 3);
  trace += str(how == 0 ? " in" : how == 1 ? " inout" : how == 2 ? " out" : " resync", ":", lname);
  nap(j.mine);
  // a processor that holds no copy of a replicated block may be presented an empty one
  bool const outside = w.md.lab[0] == 'R' && w.md.sbof(local_processor()) == no_subblock; bool none = false;
  auto look = [&](auto &d) { if (outside && d.size(0) == 0) { none = true; return std::string();} return form<L>(d, n);};
  auto check = [&](auto &d, char const *what) { if (!none) vd::box(n, P_D, [&](ul const *i) { ul g[3]; f(i, g); T got = rd(d.ptr(), off(d, i), static_cast<T *>(0)), want = w.at(g);
    if (why.empty() && !(got == want)) why = str(what, " element ", i[0], P_D > 1 ? str(",", i[1]) : "", " is presented as ", got, " expected ", want);});};
  auto put = [&](auto &d, bool all) { vd::box(n, P_D, [&](ul const *i) { ul g[3]; if (!all && !j.rng.coin(1, 3)) return; f(i, g); T x = num<T>(int(j.rng.range(-900, 900))); w.at(g) = x; if (!none) wr(d.ptr(), off(d, i), x);});};
  if (how == 0) { dda::Data<B, dda::in, L> d(v.block()); why = look(d); if (why.empty()) check(d, "read");}
  else if (how == 1) { dda::Data<B, dda::inout, L> d(v.block()); why = look(d); if (why.empty()) { check(d, "read/write"); put(d, false);}}
  else if (how == 2) { dda::Data<B, dda::out, L> d(v.block()); why = look(d); if (why.empty()) put(d, true);}
  else
  {
    dda::Data<B, dda::inout, L> d(v.block()); why = look(d);
    if (why.empty()) { put(d, false); d.sync_out(); w.verify(why, "after sync_out, root"); put(d, false); d.sync_out();}
    if (why.empty()) { for (T &x : w.val) x = num<T>(int(j.rng.range(-900, 900))); w.store(); d.sync_in(); check(d, "after sync_in");}
  }
  if (why.empty()) w.verify(why, "afterwards root");
  j.c.count("direct accesses");
}
template <bool B> struct SubD { template <typename W, typename L> static void run(Job &, TR<W> &, std::string &, std::string &, char const *) {}};
template <> struct SubD<true> { template <typename W, typename L> static void run(Job &j, TR<W> &w, std::string &why, std::string &trace, char const *ln)
{ ul m[3] = {1, 1, 1}; for (int d = 0; d < P_D; ++d) m[d] = j.rng.range(1, w.n[d]); Dom z(j.rng, P_D, w.n, m); trace += " " + z.lab(P_D); access<W, L>(j, w, w.view(MD<P_D>::of(z)), m, z.x(), why, trace, ln);}};
template <typename M, typename M2> void types(Ctx &c)
{
  typedef typename V<P_D>::of<P_T, ovxx::Strided<P_D, P_T, Layout<P_D, P_LO, P_PK, P_SF>, M> >::type W;
  vt::Rng mine(c.seed * 77 + c.rank * 1013 + 5);
  for (int k = 0; k < c.n(P_REPS); ++k)
  {
    vt::Rng rng(c.rng.next()); Job j = { c, rng, mine, ""};
    ul n[3]; shape(rng, P_D, n); TR<W> w(rng, n); w.fill(rng);
    std::string lab = str("direct access ", w.md.lab), trace, why; c.begin(lab);
#define L(...) if (why.empty()) { if (Mk<M>::blocks && rng.coin(1, 3)) SubD<Mk<M>::blocks>::template run<W, __VA_ARGS__ >(j, w, why, trace, #__VA_ARGS__); else access<W, __VA_ARGS__ >(j, w, w.view, w.n, same, why, trace, #__VA_ARGS__);}
    P_LAYOUTS
#undef L
    if (why.empty()) c.ok(lab + trace); else { c.fail("direct-access", str(lab, trace, ": ", why)); c.finish(); std::exit(0);}
  }
}
#endif

#ifdef MODE_V
// vector-matrix products whose maps need no communication, matrix transforms, user storage
template <dimension_type VD, typename VM, typename MM, typename T, typename O> void vmm(Job &j)
{
  typedef Matrix<T, Dense<2, T, O, MM> > MW; typedef Vector<T, Dense<1, T, row1_type, VM> > VW;
  ul n[3]; shape(j.rng, 2, n);
  // the two documented situations: vector replicated everywhere and the matrix not
  // distributed along it, or both on one processor / the same distribution along it
  TR<MW> m(j.rng, n); Model x; MW res(n[0], n[1], m.map);
  ul vn[1] = { n[VD == 0 ? 1 : 0]};
  if (m.md.d[VD == 0 ? 1 : 0].k != 1) return;
  VW v(vn[0], VM());
  std::vector<T> vv(vn[0]); for (ul i = 0; i < vn[0]; ++i) vv[i] = num<T>(j.rng.range(-30, 30));
  m.fill(j.rng, 30);
  for (ul i = 0; i < vn[0]; ++i) v.put(i, vv[i]);
  std::string lab = str("vmmul<", int(VD), "> ", m.md.lab), why; j.c.begin(lab); nap(j.mine);
  res = vmmul<VD>(v, m.view);
  typename MW::local_type l = res.local(); bool good = true;
  owned(m.md, [&](ul const *i, ul const *g) { T want = vv[g[VD == 0 ? 1 : 0]] * m.at(g), got = lget(l, i); if (good && !(got == want)) { good = false; why = str("at ", g[0], ",", g[1], " holds ", got, " expected ", want);}});
  if (good) good = m.verify(why, "matrix");
  j.c.count("products");
  if (good) j.c.ok(lab); else j.c.fail("vmmul", str(lab, ": ", why));
}
template <typename D0, typename D1, typename T, int A> void fftm(Job &j)
{
  typedef std::complex<T> C; typedef Map<D0, D1, Whole_dist> MM;
  typedef Matrix<C, Dense<2, C, row2_type, MM> > MW;
  ul n[3]; shape(j.rng, 2, n); int const dir = j.rng.coin() ? -1 : 1; bool inplace = j.rng.coin();
  TR<MW> m(j.rng, n); MW out(n[0], n[1], m.map); m.fill(j.rng, 30);
  std::string lab = str("fftm axis ", A, dir < 0 ? " forward " : " inverse ", inplace ? "in place " : "", m.md.lab), why;
  int const along = A == row ? 1 : 0;          // row transforms run along dimension 1
  if (m.md.d[along].k != 1) return;
  j.c.begin(lab); nap(j.mine);
  Domain<2> dom(n[0], n[1]); T scale = T(0.5);
  if (dir < 0) { Fftm<C, C, A, fft_fwd, by_reference> f(dom, scale); if (inplace) { out = m.view; f(out);} else f(m.view, out);}
  else { Fftm<C, C, A, fft_inv, by_reference> f(dom, scale); if (inplace) { out = m.view; f(out);} else f(m.view, out);}
  typename MW::local_type l = out.local(); bool good = true; ul N = n[along];
  owned(m.md, [&](ul const *i, ul const *g)
  {
    std::complex<double> s = 0; double mag = 0;
    for (ul k = 0; k < N; ++k) { ul h[2] = { g[0], g[1]}; h[along] = k; C e = m.at(h); s += std::complex<double>(e.real(), e.imag()) * std::polar(1., dir * 2 * M_PI * double(g[along] * k % N) / N); mag += std::abs(e);}
    s *= double(scale); C got = lget(l, i);
    if (good && !(std::abs(std::complex<double>(got.real(), got.imag()) - s) <= 30 * std::numeric_limits<T>::epsilon() * (mag + 1))) { good = false; why = str("at ", g[0], ",", g[1], " holds ", got, " expected ", s);}
  });
  if (good) good = m.verify(why, "input");
  j.c.count("transforms");
  if (good) j.c.ok(lab); else j.c.fail("fftm", str(lab, ": ", why));
}
template <typename T, typename M> void user(Job &j, Domain<P_D>)
{
  typedef typename V<P_D>::of<T, Dense<P_D, T, P_LO, M> >::type W;
  ul n[3]; shape(j.rng, P_D, n); Model md; M map = Mk<M>::make(j.rng, P_D, n, md);
  int const D = P_D; Domain<P_D> dom; for (int d = 0; d < D; ++d) dom.impl_at(d) = Domain<1>(n[d]);
  typedef typename W::block_type B;
  ul mine = 0, len[3] = {0, 0, 0}; { ul sb = md.sbof(local_processor()), s[3]; if (sb != no_subblock) { mine = 1; md.split(sb, s); for (int d = 0; d < D; ++d) { len[d] = md.d[d].el[s[d]].size(); mine *= len[d];}}}
  std::string lab = str("user storage ", md.lab, " "), why; j.c.begin(lab);
  int const G = 4; T const guard = num<T>(12345);
  std::vector<std::vector<T> > buf(2, std::vector<T>(mine + 2 * G, guard));
  Grid val(D, n);
  bool null = j.rng.coin();
  ovxx::refcounted_ptr<B> blk(null ? new B(dom, static_cast<T *>(0), map) : new B(dom, &buf[0][G], map), false);
  // position in user memory of a local index, by the dimension order
  auto pos = [&](ul const *l) { dimension_type o[3]; typedef typename vsip::get_block_layout<B>::order_type O; o[0] = O::impl_dim0; o[1] = O::impl_dim1; o[2] = O::impl_dim2; ul p = 0; for (int d = 0; d < D; ++d) p = p * len[o[d]] + l[o[d]]; return p;};
  int cur = 0; std::string trace;
  for (int k = 0; k < 4 && why.empty(); ++k)
  {
    if ((null && !k) || (k && j.rng.coin())) { cur = j.rng.range(0, 1); blk->rebind(&buf[cur][G]); trace += str("rebind", cur, " ");}
    if (blk->admitted()) { why = "admitted before admit"; break;}
    bool upd = true;
    for (int &x : val.a) x = j.rng.range(-900, 900);
    owned(md, [&](ul const *l, ul const *g) { buf[cur][G + pos(l)] = num<T>(val.at(D, g));});
    blk->admit(upd); trace += "admit ";
    W v(*blk);
    typename W::local_type lv = v.local();
    owned(md, [&](ul const *l, ul const *g) { T got = lget(lv, l), want = num<T>(val.at(D, g)); if (why.empty() && !(got == want)) why = str("after admit element ", g[0], " holds ", got, " expected ", want);});
    if (!blk->admitted()) why = "not admitted after admit";
    // change some elements globally
    for (int e = 0; e < 5; ++e) { ul i[3] = {0, 0, 0}; for (int d = 0; d < D; ++d) i[d] = j.rng.range(0, n[d] - 1); int x = j.rng.range(-900, 900); val.at(D, i) = x;
      if constexpr (P_D == 1) v.put(i[0], num<T>(x)); else v.put(i[0], i[1], num<T>(x)); }
    blk->release(true); trace += "release ";
    owned(md, [&](ul const *l, ul const *g) { T got = buf[cur][G + pos(l)], want = num<T>(val.at(D, g)); if (why.empty() && !(got == want)) why = str("after release element ", g[0], " of user memory holds ", got, " expected ", want);});
    for (int b = 0; b < 2; ++b) for (int q = 0; q < G; ++q) if (why.empty() && (!(buf[b][q] == guard) || !(buf[b][mine + G + q] == guard))) why = "memory around the user's storage was written";
  }
  j.c.count("user-storage histories");
  if (why.empty()) j.c.ok(lab); else j.c.fail("user-storage", str(lab, trace, ": ", why));
}
template <typename D0, typename D1> void maps(Job &j)
{
  typedef Map<D0, D1, Whole_dist> MM;
  vmm<0, Replicated_map<1>, MM, P_T, P_LO>(j); vmm<1, Replicated_map<1>, MM, P_T, P_LO>(j);
  if constexpr (Kind<D0>::v != 2 && Kind<D1>::v != 2) { fftm<D0, D1, float, row>(j); fftm<D0, D1, double, col>(j);}
  if constexpr (Kind<D0>::v != 2 && Kind<D1>::v != 2) { user<P_T, MM>(j, Domain<P_D>());}
}
#endif

#ifdef MODE_C
using ovxx::parallel::Communicator; using ovxx::parallel::Group;
template <typename T> void bc(Communicator &cm, Ctx &c, vt::Rng &r, vt::Rng &mine, char const *tn)
{
  ul np = cm.size(), me = cm.rank(), root = r.range(0, np - 1), n = r.range(1, 50);
  std::vector<T> x(n + 2), w(n + 2); for (ul i = 0; i < n + 2; ++i) { w[i] = num<T>(r.range(-900, 900)); x[i] = me == root ? w[i] : num<T>(-7777);}
  w[0] = w[n + 1] = x[0] = x[n + 1] = num<T>(4321);
  std::string lab = str("broadcast ", tn, " from ", root, " of ", np, " count ", n); c.begin(lab); nap(mine);
  cm.broadcast(root, &x[1], n);
  if (x == w) c.ok(lab); else c.fail("broadcast", lab);
  // ring: everyone sends to the next, in one of two ways
  bool buf = r.coin() && n * sizeof(T) < 1000; ul next = (me + 1) % np, prev = (me + np - 1) % np;
  for (ul i = 0; i < n + 2; ++i) { w[i] = num<T>(int(i * 3 + me)); x[i] = num<T>(-1);}
  lab = str(buf ? "buffered" : "immediate", " ring ", tn, " of ", np, " count ", n); c.begin(lab); nap(mine);
  ovxx::mpi::Communicator::request_type req;
  if (buf) cm.buf_send(next, &w[1], n); else cm.send(next, &w[1], n, req);
  cm.recv(prev, &x[1], n);
  if (!buf) cm.wait(req);
  bool good = x[0] == num<T>(-1) && x[n + 1] == num<T>(-1); for (ul i = 1; i <= n; ++i) good = good && x[i] == num<T>(int(i * 3 + prev));
  if (good) c.ok(lab); else c.fail("ring", lab);
}
template <typename T> void ar(Communicator &cm, Ctx &c, vt::Rng &r, vt::Rng &mine, char const *tn)
{
  ul np = cm.size(), me = cm.rank(); std::vector<int> v(np); for (int &x : v) x = r.range(-900, 900);
  int s = 0, mx = v[0], mn = v[0]; for (int x : v) { s += x; mx = std::max(mx, x); mn = std::min(mn, x);}
  std::string lab = str("allreduce ", tn, " of ", np, " ", s); c.begin(lab); nap(mine);
  T a = cm.allreduce(ovxx::reduce_sum, T(v[me])), b = cm.allreduce(ovxx::reduce_max, T(v[me])), d = cm.allreduce(ovxx::reduce_min, T(v[me]));
  if (a == T(s) && b == T(mx) && d == T(mn)) c.ok(lab); else c.fail("allreduce", str(lab, ": sum ", a, " max ", b, " min ", d));
}
static void logic(Communicator &cm, Ctx &c, vt::Rng &r)
{
  ul np = cm.size(), me = cm.rank(); std::vector<int> v(np); bool all = true, any = false; int bias = r.range(0, 2);
  for (int &x : v) { x = bias == 0 ? 0 : bias == 1 ? r.range(1, 9) : r.range(0, 1); all = all && x; any = any || x;}
  if (r.coin()) { ul k = r.range(0, np - 1); v[k] = !v[k]; all = true; any = false; for (int x : v) { all = all && x; any = any || x;}}
  std::string lab = str("logical allreduce of ", np, " ", bias, all, any); c.begin(lab);
  int a = cm.allreduce(ovxx::reduce_all_true, v[me]), o = cm.allreduce(ovxx::reduce_any_true, v[me]);
  bool ba = cm.allreduce(ovxx::reduce_all_true_bool, v[me] != 0), bo = cm.allreduce(ovxx::reduce_any_true_bool, v[me] != 0);
  if ((a != 0) == all && (o != 0) == any && ba == all && bo == any) c.ok(lab); else c.fail("logical-allreduce", str(lab, ": ", a, o, ba, bo));
}
// group algebra against sets of world ranks (all processes hold every group)
struct GM { Group g; std::vector<int> m;};
static bool right(GM const &x, std::string &why, char const *what)
{
  Group g(x.g), w = ovxx::parallel::default_communicator().group();
  std::vector<int> in, out, ref(x.m); for (ul i = 0; i < x.m.size(); ++i) in.push_back(i);
  if (g.size() != x.m.size()) { why = str(what, " has size ", g.size(), " expected ", x.m.size()); return false;}
  g.translate_ranks(in.begin(), in.end(), w, std::back_inserter(out));
  if (out != ref) { why = str(what, " has other members or another order"); return false;}
  index_type me = local_processor(), rk = ovxx::no_rank; for (ul i = 0; i < ref.size(); ++i) if (ref[i] == int(me)) rk = i;
  if (g.rank() != rk) { why = str(what, " gives rank ", long(g.rank()), " expected ", long(rk)); return false;}
  return true;
}
static void groups(Ctx &c, vt::Rng &r)
{
  Communicator &world = ovxx::parallel::default_communicator(); ul np = world.size();
  GM w; w.g = world.group(); for (ul i = 0; i < np; ++i) w.m.push_back(i);
  std::vector<GM> pool(1, w); std::string lab = "groups", why;
  for (int k = 0; k < 12 && why.empty(); ++k)
  {
    GM a = pool[r.range(0, pool.size() - 1)], b = pool[r.range(0, pool.size() - 1)], z; char const *op = "";
    switch (r.range(0, 5))
    {
      case 0: { op = "include"; std::vector<int> pick; for (ul i = 0; i < a.m.size(); ++i) if (r.coin()) pick.push_back(i); for (ul i = pick.size(); i-- > 1;) std::swap(pick[i], pick[r.range(0, i)]);
        if (r.coin()) z.g = a.g.include(pick.begin(), pick.end()); else { std::list<int> l(pick.begin(), pick.end()); z.g = a.g.include(l.begin(), l.end());} for (int p : pick) z.m.push_back(a.m[p]); break;}
      case 1: { op = "exclude"; std::vector<int> pick; for (ul i = 0; i < a.m.size(); ++i) if (r.coin()) pick.push_back(i); else z.m.push_back(a.m[i]); for (ul i = pick.size(); i-- > 1;) std::swap(pick[i], pick[r.range(0, i)]);
        if (a.m.empty()) { z = a; break;}
        if (r.coin()) z.g = a.g.exclude(pick.begin(), pick.end()); else z.g = a.g.exclude(pick.data(), pick.data() + pick.size()); break;}
      case 2: op = "union"; z.g = a.g | b.g; z.m = a.m; for (int p : b.m) if (std::find(a.m.begin(), a.m.end(), p) == a.m.end()) z.m.push_back(p); break;
      case 3: op = "intersection"; z.g = a.g & b.g; for (int p : a.m) if (std::find(b.m.begin(), b.m.end(), p) != b.m.end()) z.m.push_back(p); break;
      case 4: op = "difference"; z.g = a.g - b.g; for (int p : a.m) if (std::find(b.m.begin(), b.m.end(), p) == b.m.end()) z.m.push_back(p); break;
      default: op = "copy"; { Group t(a.g); z.g = t; z.m = a.m;}
    }
    lab += str(" ", op, z.m.size()); c.begin(lab);
    right(z, why, op); if (why.empty()) right(a, why, "operand");
    pool.push_back(z); c.count("group operations");
  }
  if (why.empty()) c.ok(lab); else c.fail("group", str(lab, ": ", why));
  // a communicator over one of the groups
  GM z = pool[r.range(0, pool.size() - 1)]; if (z.m.empty() || !why.empty()) return;
  lab = str("subgroup communicator of ", z.m.size()); c.begin(lab);
  Communicator sc(world, z.g); ul rk = no_processor; for (ul i = 0; i < z.m.size(); ++i) if (z.m[i] == int(world.rank())) rk = i;
  bool in = rk != ul(no_processor);
  if (bool(sc) != in) { c.fail("subgroup", str(lab, ": membership"));}
  else if (in) { int s = sc.allreduce(ovxx::reduce_sum, 1 << rk); if (sc.size() != z.m.size() || sc.rank() != rk || sc.pvec().size() != z.m.size() || s != (1 << z.m.size()) - 1) c.fail("subgroup", str(lab, ": rank ", sc.rank(), " of ", sc.size())); else c.ok(lab);}
  world.barrier();
}
static void split(Ctx &c, vt::Rng &r, vt::Rng &mine)
{
  Communicator world = ovxx::parallel::default_communicator(); ul np = world.size(), me = world.rank();
  std::vector<int> color(np), key(np); for (ul i = 0; i < np; ++i) { color[i] = r.range(0, 2); key[i] = r.range(0, 3);}
  std::vector<std::pair<int, ul> > mem; bool keyed = r.coin(); for (ul i = 0; i < np; ++i) if (color[i] == color[me]) mem.push_back(std::make_pair(keyed ? key[i] : 0, i));
  std::sort(mem.begin(), mem.end());
  std::string lab = str("split ", np, keyed, mem.size()), why; c.begin(lab); nap(mine);
  Communicator s = keyed ? world.split(color[me], key[me]) : world.split(color[me]);
  ul rk = 0; while (mem[rk].second != me) ++rk;
  if (s.size() != mem.size() || s.rank() != rk) why = str("rank ", s.rank(), " of ", s.size());
  if (s == world && np != mem.size()) why = "equal to its parent";
  if (!(world == Communicator(world))) why = "copy differs";
  // the library works over the new processor set: distributed data stay inside it
  Communicator old = ovxx::parallel::set_default_communicator(s);
  if (num_processors() != mem.size() || local_processor() != rk || local_processor_index() != rk) why = "processor queries ignore the default communicator";
  {
    ul n = r.range(1, 30); vt::Rng rr(1000 + color[me]);
    typedef Vector<int, Dense<1, int, row1_type, Map<Block_dist> > > VB; typedef Vector<int, Dense<1, int, row1_type, Map<Cyclic_dist> > > VC;
    ul sh[3] = {n, 1, 1}; TR<VB> a(rr, sh), z(rr, sh); TR<VC> b(rr, sh); a.fill(rr); b.fill(rr);
    z.view = a.view + b.view; for (ul i = 0; i < n; ++i) z.val[i] = a.val[i] + b.val[i];
    z.verify(why, "sum"); int t = 0; for (int e : z.val) t += e; int got = sumval(z.view); if (got != t) why = str("sumval ", got, " expected ", t);
  }
  s.barrier(); ovxx::parallel::set_default_communicator(old); world.barrier();
  if (num_processors() != np || local_processor() != me) why = "default communicator not restored";
  if (why.empty()) c.ok(lab); else c.fail("split", str(lab, ": ", why));
}
void vt_main(Ctx &c)
{
  vt::Rng mine(c.seed * 77 + c.rank * 1013 + 5);
  for (int k = 0; k < c.n(P_REPS); ++k)
  {
    vt::Rng r(c.rng.next()); Communicator w = ovxx::parallel::default_communicator(), d(w, Communicator::comm_duplicate);
    for (Communicator *cm : {&w, &d})
    {
      bc<char>(*cm, c, r, mine, "char"); bc<int>(*cm, c, r, mine, "int"); bc<unsigned long>(*cm, c, r, mine, "ulong"); bc<float>(*cm, c, r, mine, "float"); bc<double>(*cm, c, r, mine, "double"); bc<short>(*cm, c, r, mine, "short");
      bc<std::complex<float> >(*cm, c, r, mine, "cfloat"); bc<std::complex<double> >(*cm, c, r, mine, "cdouble");
      ar<int>(*cm, c, r, mine, "int"); ar<float>(*cm, c, r, mine, "float"); ar<double>(*cm, c, r, mine, "double"); ar<long>(*cm, c, r, mine, "long");
      logic(*cm, c, r);
    }
    groups(c, r); split(c, r, mine);
  }
}
#elif defined MODE_V
void vt_main(Ctx &c)
{
  vt::Rng mine(c.seed * 77 + c.rank * 1013 + 5);
  for (int k = 0; k < c.n(P_REPS); ++k)
  {
    vt::Rng rng(c.rng.next()); Job j = { c, rng, mine, ""};
    maps<Block_dist, Whole_dist>(j); maps<Whole_dist, Block_dist>(j); maps<Block_dist, Block_dist>(j); maps<Cyclic_dist, Whole_dist>(j); maps<Whole_dist, Cyclic_dist>(j);
  }
}
#else
#define M_W Map<Whole_dist, Whole_dist, Whole_dist>
#define M_B Map<Block_dist, Whole_dist, Whole_dist>
#define M_C Map<Cyclic_dist, Whole_dist, Whole_dist>
#define M_BB Map<Block_dist, Block_dist, Whole_dist>
#define M_WC Map<Whole_dist, Cyclic_dist, Whole_dist>
#define M_CC Map<Cyclic_dist, Cyclic_dist, Whole_dist>
#define M_CB Map<Cyclic_dist, Block_dist, Whole_dist>
#define M_BBB Map<Block_dist, Block_dist, Block_dist>
#define M_CWB Map<Cyclic_dist, Whole_dist, Block_dist>
#define M_WBC Map<Whole_dist, Block_dist, Cyclic_dist>
#define M_R Replicated_map<P_D>
void vt_main(Ctx &c)
{
#define X(R) types<P_LM, R>(c);
  P_RMS
#undef X
}
#endif
#include "main.hpp"
