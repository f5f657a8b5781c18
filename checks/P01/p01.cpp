// P01: every subview denotes exactly the parent elements it names.
// Chains of subview operations over Dense / Strided parents of every layout;
// after every link the complete view and the complete parent are compared with
// the index-list model, for reads, element writes and whole-view assignments.
// Everything that does not depend on the view type is behind 'Ops'.
#include "model.hpp"
#include "main.hpp"
#include <vsip/dda.hpp>
using namespace vsip;
using namespace vt;

template <typename T> struct Ops
{
  virtual ~Ops() {}
  virtual T get(long l) = 0;
  virtual void put(long l, T x) = 0;
  virtual void ref(long l, T x) = 0;          // through operator()
  virtual void all(T x) = 0;                  // v = scalar
  virtual void sizes(long *n, long &total) = 0;
};
struct World
{
  Ctx &c; std::string kind, path;
  World(Ctx &x) : c(x) {}
};
template <typename BT> struct Parent : World
{
  std::vector<BT> model;
  Parent(Ctx &c) : World(c) {}
  virtual std::vector<BT> read() = 0;
};
template <typename View> struct BaseParent : Parent<typename View::value_type>
{
  View v;
  BaseParent(Ctx &c, View x) : Parent<typename View::value_type>(c), v(x) {}
  std::vector<typename View::value_type> read() { return readall(v);}
};

template <typename BT, typename T>
__attribute__((noinline)) void judge(Parent<BT> &p, Ops<T> &o, int D, long const *n, std::vector<long> const &idx, int comp)
{
  typedef compio<BT, T> io;
  Ctx &c = p.c;
  std::string where = p.kind + p.path;
  c.begin(where);
  long m[3], total; o.sizes(m, total);
  for (int d = 0; d < D; ++d)
    if (n[d] != m[d]) { c.fail("size", str(where, ": size(", d, ")=", m[d], " expected ", n[d])); return;}
  if (total != long(idx.size())) { c.fail("size", str(where, ": size()=", total, " expected ", idx.size())); return;}
  for (long l = 0; l < total; ++l)
  {
    T want = io::get(p.model[idx[l]], comp), got = o.get(l);
    if (!(want == got))
    { c.fail("read", str(where, ": element #", l, " = ", got, ", parent element #", idx[l], " = ", want)); return;}
  }
  int w = total ? int(c.rng.range(1, 3)) : 0;
  for (int i = 0; i < w; ++i)
  {
    long l = c.rng.range(0, total - 1);
    T x = gen<T>::small(c.rng, -99, 99);
    if (c.rng.coin()) o.put(l, x); else o.ref(l, x);
    io::set(p.model[idx[l]], x, comp);
  }
  if (total && c.rng.coin())
  {
    T x = gen<T>::small(c.rng, -99, 99);
    o.all(x);
    for (long k : idx) io::set(p.model[k], x, comp);
    c.count("whole-view assignments");
  }
  std::vector<BT> got = p.read();
  for (size_t i = 0; i < got.size(); ++i)
    if (!(got[i] == p.model[i]))
    {
      bool inside = std::find(idx.begin(), idx.end(), long(i)) != idx.end();
      c.fail(inside ? "write" : "write-outside",
             str(where, ": after writes through the view parent element #", i, " = ", got[i], ", expected ", p.model[i]));
      p.model = got;
      return;
    }
  c.count("links observed");
  c.ok(where, 2 + w);
  // restore distinct values so that later reads identify their element
  for (size_t i = 0; i < idx.size(); ++i)
  {
    T x = io::get(BT(uid<BT>::of(idx[i])), comp);
    o.put(i, x); io::set(p.model[idx[i]], x, comp);
  }
}
template <typename V> void setref(V &v, long const *, long l, typename V::value_type x, kint<1>) { v(l) = x;}
template <typename V> void setref(V &v, long const *n, long l, typename V::value_type x, kint<2>) { v(l / n[1], l % n[1]) = x;}
template <typename V> void setref(V &v, long const *n, long l, typename V::value_type x, kint<3>)
{ v(l / (n[1] * n[2]), l / n[2] % n[1], l % n[2]) = x;}

template <typename V> struct VOps : Ops<typename V::value_type>
{
  typedef typename V::value_type T;
  V v; long n[3];
  VOps(V x) : v(x) { vt::sizes(v, n);}
  T get(long l) { return vget(v, n, l);}
  void put(long l, T x) { vput(v, n, l, x);}
#if PD == 8 || PD == 5
  // operator() on a fibre of a proxy-valued 3-D block does not compile
  void ref(long l, T x) { vput(v, n, l, x);}
#else
  void ref(long l, T x) { setref(v, n, l, x, kint<int(V::dim)>());}
#endif
  void all(T x) { v = x;}
  void sizes(long *m, long &t) { vt::sizes(v, m); t = long(v.size());}
};

__attribute__((noinline)) Domain<1> pick(World &w, long n)
{ Domain<1> d = rdom(w.c.rng, n); w.path += sdom(d) + ","; return d;}
__attribute__((noinline)) long num(World &w, long lo, long hi)
{ long i = w.c.rng.range(lo, hi); w.path += str(i, ","); return i;}
__attribute__((noinline)) void op(World &w, char const *s) { w.path += "."; w.path += s;}

template <int left, typename P, typename V, int D>
typename std::enable_if<(left < 0)>::type explore(P &, V, Sel<D> const &, int) {}
template <int left, typename P, typename V>
typename std::enable_if<(left >= 0)>::type explore(P &, V, Sel<1> const &, int);
template <int left, typename P, typename V>
typename std::enable_if<(left >= 0)>::type explore(P &, V, Sel<2> const &, int);
template <int left, typename P, typename V>
typename std::enable_if<(left >= 0)>::type explore(P &, V, Sel<3> const &, int);

template <int left, typename P, typename V, int D>
typename std::enable_if<(left > 0 && is_cplx<typename V::value_type>::value)>::type parts(P &p, V v, Sel<D> const &s)
{
  if (p.c.rng.coin()) { op(p, "real"); explore<left - 1>(p, v.real(), s, int(real_c));}
  else { op(p, "imag"); explore<left - 1>(p, v.imag(), s, int(imag_c));}
}
template <int left, typename P, typename V, int D>
typename std::enable_if<!(left > 0 && is_cplx<typename V::value_type>::value)>::type parts(P &, V, Sel<D> const &) {}

template <typename P, typename V, int D> void observe(P &p, V v, Sel<D> const &s, int comp)
{
  VOps<V> o(v);
  judge<typename P::BT, typename V::value_type>(p, o, D, s.n, s.idx, comp);
}
template <int left, typename P, typename V> struct Next1
{
  static void go(P &p, V v, Sel<1> const &s, int comp)
  {
    if (p.c.rng.coin(2, 3)) { op(p, "sub"); Domain<1> d = pick(p, s.n[0]); explore<left - 1>(p, v(d), sub(s, d), comp);}
    else parts<left>(p, v, s);
  }
};
template <typename P, typename V> struct Next1<0, P, V> { static void go(P &, V, Sel<1> const &, int) {} };
template <int left, typename P, typename V>
typename std::enable_if<(left >= 0)>::type explore(P &p, V v, Sel<1> const &s, int comp)
{
  observe(p, v, s, comp);
  if (s.n[0]) Next1<left, P, V>::go(p, v, s, comp);
}
template <int left, typename P, typename V> struct Next2
{
  static void go(P &p, V v, Sel<2> const &s, int comp)
  {
    switch (p.c.rng.range(0, 6))
    {
    case 0: case 1:
    {
      op(p, "sub"); Domain<1> a = pick(p, s.n[0]), b = pick(p, s.n[1]);
      explore<left - 1>(p, v(Domain<2>(a, b)), sub(s, a, b), comp); break;
    }
    case 2: { op(p, "row"); long i = num(p, 0, s.n[0] - 1); explore<left - 1>(p, v.row(i), srow(s, i), comp); break;}
    case 3: { op(p, "col"); long i = num(p, 0, s.n[1] - 1); explore<left - 1>(p, v.col(i), scol(s, i), comp); break;}
    case 4:
    {
      op(p, "diag"); long k = num(p, -(s.n[0] - 1), s.n[1] - 1);
      explore<left - 1>(p, v.diag(k), sdiag(s, k), comp); break;
    }
    case 5: op(p, "transpose"); explore<left - 1>(p, v.transpose(), trans(s), comp); break;
    default: parts<left>(p, v, s);
    }
  }
};
template <typename P, typename V> struct Next2<0, P, V> { static void go(P &, V, Sel<2> const &, int) {} };
template <int left, typename P, typename V>
typename std::enable_if<(left >= 0)>::type explore(P &p, V v, Sel<2> const &s, int comp)
{ observe(p, v, s, comp); Next2<left, P, V>::go(p, v, s, comp);}

template <int left, typename P, typename V> struct Next3
{
  static void go(P &p, V v, Sel<3> const &s, int comp)
  {
    whole_domain_type W = vsip::whole_domain;
    long const *n = s.n;
    switch (p.c.rng.range(0, left > 1 ? 17 : 8))
    {
    case 0: case 7:
    {
      op(p, "sub"); Domain<1> a = pick(p, n[0]), b = pick(p, n[1]), d = pick(p, n[2]);
      explore<left - 1>(p, v(Domain<3>(a, b, d)), sub(s, a, b, d), comp); break;
    }
    case 1: { op(p, "slice0"); long i = num(p, 0, n[0] - 1); explore<left - 1>(p, v(i, W, W), slice(s, 0, i), comp); break;}
    case 2: { op(p, "slice1"); long i = num(p, 0, n[1] - 1); explore<left - 1>(p, v(W, i, W), slice(s, 1, i), comp); break;}
    case 3: { op(p, "slice2"); long i = num(p, 0, n[2] - 1); explore<left - 1>(p, v(W, W, i), slice(s, 2, i), comp); break;}
    case 4:
    { op(p, "fibre0"); long i = num(p, 0, n[1] - 1), j = num(p, 0, n[2] - 1); explore<left - 1>(p, v(W, i, j), fibre(s, 0, i, j), comp); break;}
    case 5:
    { op(p, "fibre1"); long i = num(p, 0, n[0] - 1), j = num(p, 0, n[2] - 1); explore<left - 1>(p, v(i, W, j), fibre(s, 1, i, j), comp); break;}
    case 6:
    { op(p, "fibre2"); long i = num(p, 0, n[0] - 1), j = num(p, 0, n[1] - 1); explore<left - 1>(p, v(i, j, W), fibre(s, 2, i, j), comp); break;}
    case 8: parts<left>(p, v, s); break;
    default: more(p, v, s, comp, std::integral_constant<bool, (left > 1)>());
    }
  }
  static void more(P &, V, Sel<3> const &, int, std::false_type) {}
  static void more(P &p, V v, Sel<3> const &s, int comp, std::true_type)
  {
    long const *n = s.n;
    switch (p.c.rng.range(0, 9))
    {
    case 0:
    {
      op(p, "slice0sub"); long i = num(p, 0, n[0] - 1); Domain<1> a = pick(p, n[1]), b = pick(p, n[2]);
      explore<left - 1>(p, v(i, a, b), sub(slice(s, 0, i), a, b), comp); break;
    }
    case 1:
    {
      op(p, "slice1sub"); long i = num(p, 0, n[1] - 1); Domain<1> a = pick(p, n[0]), b = pick(p, n[2]);
      explore<left - 1>(p, v(a, i, b), sub(slice(s, 1, i), a, b), comp); break;
    }
    case 2:
    {
      op(p, "slice2sub"); long i = num(p, 0, n[2] - 1); Domain<1> a = pick(p, n[0]), b = pick(p, n[1]);
      explore<left - 1>(p, v(a, b, i), sub(slice(s, 2, i), a, b), comp); break;
    }
    case 3:
    {
      op(p, "fibre0sub"); long i = num(p, 0, n[1] - 1), j = num(p, 0, n[2] - 1); Domain<1> a = pick(p, n[0]);
      explore<left - 1>(p, v(a, i, j), sub(fibre(s, 0, i, j), a), comp); break;
    }
    case 4:
    {
      op(p, "fibre1sub"); long i = num(p, 0, n[0] - 1), j = num(p, 0, n[2] - 1); Domain<1> a = pick(p, n[1]);
      explore<left - 1>(p, v(i, a, j), sub(fibre(s, 1, i, j), a), comp); break;
    }
    case 5:
    {
      op(p, "fibre2sub"); long i = num(p, 0, n[0] - 1), j = num(p, 0, n[1] - 1); Domain<1> a = pick(p, n[2]);
      explore<left - 1>(p, v(i, j, a), sub(fibre(s, 2, i, j), a), comp); break;
    }
    case 6: op(p, "transpose<1,2,0>"); explore<left - 1>(p, v.template transpose<1, 2, 0>(), permute(s, 1, 2, 0), comp); break;
    case 7: op(p, "transpose<2,1,0>"); explore<left - 1>(p, v.template transpose<2, 1, 0>(), permute(s, 2, 1, 0), comp); break;
    case 8: op(p, "transpose<2,0,1>"); explore<left - 1>(p, v.template transpose<2, 0, 1>(), permute(s, 2, 0, 1), comp); break;
    case 9: op(p, "transpose<0,2,1>"); explore<left - 1>(p, v.template transpose<0, 2, 1>(), permute(s, 0, 2, 1), comp); break;
    }
  }
};
template <typename P, typename V> struct Next3<0, P, V> { static void go(P &, V, Sel<3> const &, int) {} };
template <int left, typename P, typename V>
typename std::enable_if<(left >= 0)>::type explore(P &p, V v, Sel<3> const &s, int comp)
{ observe(p, v, s, comp); Next3<left, P, V>::go(p, v, s, comp);}

// the parent as the explorers see it: independent of the base view's type
template <typename B> struct PBase : Parent<B> { typedef B BT; PBase(Ctx &c) : Parent<B>(c) {} };
template <typename View> struct PView : PBase<typename View::value_type>
{
  View v;
  PView(Ctx &c, View x) : PBase<typename View::value_type>(c), v(x) {}
  std::vector<typename View::value_type> read() { return readall(v);}
};
template <int depth, int D, typename V> void drive(Ctx &c, V b, long const *n, std::string const &kind)
{
  typedef typename V::value_type T;
  PView<V> p(c, b);
  p.kind = kind + sshape(D, n) + " ";
  Sel<D> s = Sel<D>::all(n[0], n[1], n[2]);
  for (long i = 0; i < s.total(); ++i) p.model.push_back(uid<T>::of(i));
  writeall(b, p.model);
  explore<depth>(static_cast<PBase<T> &>(p), b, s, int(whole_c));
}
template <int depth, typename T, typename B> void vec(Ctx &c, std::string const &k, int reps)
{
  for (int q = 0; q < reps; ++q)
  { long n[3]; rshape(c.rng, 1, n, 20); Vector<T, B> b(n[0], T()); drive<depth, 1>(c, b, n, str(tname<T>::get(), " vector ", k, " "));}
}
template <int depth, typename T, typename B> void mat(Ctx &c, std::string const &k, int reps)
{
  for (int q = 0; q < reps; ++q)
  { long n[3]; rshape(c.rng, 2, n, 9); Matrix<T, B> b(n[0], n[1], T()); drive<depth, 2>(c, b, n, str(tname<T>::get(), " matrix ", k, " "));}
}
template <int depth, typename T, typename B> void ten(Ctx &c, std::string const &k, int reps)
{
  for (int q = 0; q < reps; ++q)
  { long n[3]; rshape(c.rng, 3, n, 6); Tensor<T, B> b(n[0], n[1], n[2], T()); drive<depth, 3>(c, b, n, str(tname<T>::get(), " tensor ", k, " "));}
}
typedef PT T;
void vt_main(Ctx &c)
{
  int R = int(c.n(REPS));
#if PD == 1
  vec<4, T, Dense<1, T>>(c, "dense", R);
  vec<3, T, SB<1, T, T012, vsip::dense, PS>::type>(c, "alt", R);
#elif PD == 2
  mat<3, T, Dense<2, T, row2_type>>(c, "row", R);
#elif PD == 3
  mat<3, T, Dense<2, T, col2_type>>(c, "col", R);
#elif PD == 4
  mat<2, T, SB<2, T, row2_type, vsip::dense, PS>::type>(c, "row alt", R);
  mat<2, T, SB<2, T, col2_type, aligned_16, array>::type>(c, "col aligned16", R);
  mat<2, T, SB<2, T, col2_type, vsip::dense, PS>::type>(c, "col alt", R);
  mat<2, T, SB<2, T, row2_type, aligned_64, array>::type>(c, "row aligned64", R);
#elif PD == 5
  ten<2, T, Dense<3, T, T012>>(c, "012", R);
#elif PD == 6
  ten<1, T, Dense<3, T, T102>>(c, "102", R);
  ten<1, T, Dense<3, T, T201>>(c, "201", R);
  ten<1, T, Dense<3, T, T120>>(c, "120", R);
  ten<1, T, Dense<3, T, T021>>(c, "021", R);
#elif PD == 7
  ten<2, T, Dense<3, T, T210>>(c, "210", R);
#elif PD == 8
  ten<1, T, SB<3, T, T012, aligned_16, PS>::type>(c, "012 aligned alt", R);
  ten<1, T, SB<3, T, T201, aligned_32, array>::type>(c, "201 aligned", R);
  ten<1, T, SB<3, T, T102, vsip::dense, PS>::type>(c, "102 alt", R);
#endif
}
