// Random programs over a pool of arrays and overlapping views, stepped in
// lockstep with a sequential model: one list of scalar cells, every view being
// a list of cell numbers.  After each operation all views are read back.
#include "vt.hpp"
#include <vsip/initfin.hpp>
#include <vsip/support.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/math.hpp>
#include <vsip/signal.hpp>
#include <vsip/selgen.hpp>
#include <vsip/complex.hpp>
#include <vsip/dda.hpp>
#include <ovxx/strided.hpp>
#include <memory>
using namespace vsip;
using vt::Ctx; using vt::Rng; using vt::str;
#ifndef RTYPE
#define RTYPE double
#endif
typedef RTYPE R;
typedef std::complex<R> C;
static bool const integral = std::is_integral<R>::value;
template <dimension_type D, typename T> struct split_ { typedef Dense<D, T> type;};
template <dimension_type D> struct split_<D, std::complex<float> > { typedef ovxx::Strided<D, std::complex<float>, Layout<D, tuple<0, 1, 2>, dense, split_complex> > type;};
template <dimension_type D> struct split_<D, std::complex<double> > { typedef ovxx::Strided<D, std::complex<double>, Layout<D, tuple<0, 1, 2>, dense, split_complex> > type;};
template <dimension_type D> using Split = typename split_<D, C>::type;
#define NVK 10
#define NMK 7
template <typename T, int K> struct VK { typedef Vector<T> type;};
template <typename T> struct VK<T, 1> { typedef typename Vector<T>::subview_type type;};
template <typename T> struct VK<T, 2> { typedef typename Vector<T>::subview_type::subview_type type;};
template <typename T> struct VK<T, 3> { typedef typename Matrix<T>::row_type type;};
template <typename T> struct VK<T, 4> { typedef typename Matrix<T, Dense<2, T, col2_type> >::row_type type;};
template <typename T> struct VK<T, 5> { typedef typename Matrix<T>::col_type type;};
template <typename T> struct VK<T, 6> { typedef typename Matrix<T>::diag_type type;};
#if !INTEGRAL
template <> struct VK<R, 7> { typedef typename Vector<C>::realview_type type;};
template <> struct VK<R, 8> { typedef typename Vector<C, Split<1> >::imagview_type type;};
template <> struct VK<C, 7> { typedef Vector<C, Split<1> > type;};
template <> struct VK<C, 8> { typedef typename Vector<C, Split<1> >::subview_type type;};
#endif
template <typename T> struct VK<T, 9> { typedef decltype(std::declval<Tensor<T> &>()(0, whole_domain, 0)) type;};
template <typename T, int K> struct MK { typedef Matrix<T> type;};
template <typename T> struct MK<T, 1> { typedef Matrix<T, Dense<2, T, col2_type> > type;};
template <typename T> struct MK<T, 2> { typedef typename Matrix<T>::subview_type type;};
template <typename T> struct MK<T, 3> { typedef typename Matrix<T>::transpose_type type;};
template <typename T> struct MK<T, 4> { typedef typename Matrix<T, Dense<2, T, col2_type> >::subview_type type;};
#if !INTEGRAL
template <> struct MK<R, 5> { typedef typename Matrix<C>::imagview_type type;};
template <> struct MK<C, 5> { typedef Matrix<C, Split<2> > type;};
#endif
template <typename T> struct MK<T, 6> { typedef decltype(std::declval<Tensor<T> &>()(0, whole_domain, whole_domain)) type;};

struct View
{
  int kind; int rows, cols; bool cplx, mat; std::shared_ptr<void> p; std::vector<size_t> c;
  int n() const { return rows * cols;}
  std::string name() const { return str(mat ? "m" : "v", cplx ? "c" : "r", kind, "(", rows, "x", cols, ")");}
};
#define P_V(K) case K: { typedef typename VK<T, K>::type X_; f(*static_cast<X_ *>(v.p.get())); break;}
#define P_M(K) case K: { typedef typename MK<T, K>::type X_; f(*static_cast<X_ *>(v.p.get())); break;}
template <typename T, typename F> void onv(View const &v, F f) { switch (v.kind) { P_V(0) P_V(1) P_V(2) P_V(3) P_V(4) P_V(5) P_V(6) P_V(7) P_V(8) P_V(9)}}
template <typename T, typename F> void onm(View const &v, F f) { switch (v.kind) { P_M(0) P_M(1) P_M(2) P_M(3) P_M(4) P_M(5) P_M(6)}}
// few kinds only: plain, subview, row, transposed storage
template <typename T, typename F> void onv3(View const &v, F f) { switch (v.kind) { P_V(0) P_V(1) P_V(5)}}
template <typename T, typename F> void onm3(View const &v, F f) { switch (v.kind) { P_M(0) P_M(1) P_M(2)}}
template <typename T, typename F> void onm4(View const &v, F f) { switch (v.kind) { P_M(0) P_M(1) P_M(2) P_M(5)}}
template <typename T> bool in3(View const &v) { return v.mat ? v.kind <= 2 : v.kind <= 1 || v.kind == 5;}

struct Prog
{
  Ctx &c; Rng r; std::vector<R> store; std::vector<View> pool[4];  // rv cv rm cm
  struct User { std::shared_ptr<void> view; std::vector<R> *mem; bool cplx; std::vector<size_t> cells;};
  std::vector<User> users; std::vector<std::unique_ptr<std::vector<R> > > mems;
  struct Tens { bool cplx; int d[3]; std::shared_ptr<void> p; size_t base;};
  std::vector<Tens> tens; std::string trace, last; long steps; bool bad;
  Prog(Ctx &x, uint64_t s) : c(x), r(s), steps(0), bad(false) {}
  template <typename T> std::vector<T> vals(View const &v) const;
  template <typename T> void set(View const &v, std::vector<T> const &x);
  bool same(View const &a, View const &b) const { return a.c == b.c && a.cplx == b.cplx && a.rows == b.rows;}
  bool disjoint(View const &a, View const &b) const;
  bool free(View const &d, View const &s) const { return same(d, s) || disjoint(d, s);}
  View *pick(int which) { return pool[which].empty() ? 0 : &pool[which][r.range(0, pool[which].size() - 1)];}
  View *other(int which, int rows, int cols, View const &notover, bool allowsame = true)
  {
    std::vector<View *> q; for (View &v : pool[which]) if (v.rows == rows && v.cols == cols && (disjoint(v, notover) || (allowsame && same(v, notover)))) q.push_back(&v);
    return q.empty() ? 0 : r.pick(q);
  }
  template <typename T> void judge(View const &d, std::vector<T> const &want, double mag = 1, double ulps = 64);
  void failed(std::string const &what) { bad = true; c.fail("program:" + last.substr(0, last.find(' ')), str("step ", steps, " ", last, ": ", what, " ;; ", trace.size() > 350 ? trace.substr(trace.size() - 350) : trace));}
  void say(std::string const &s) { last = s; trace += "; " + s; c.begin(str("program, step ", steps, ": ", trace.size() > 900 ? trace.substr(trace.size() - 900) : trace));}
};
inline C mk(R a, R b, C *) { return C(a, b);}
template <typename T> struct cell { static T get(std::vector<R> const &s, size_t k) { return s[k];} static void put(std::vector<R> &s, size_t k, T x) { s[k] = x;} static R dist(T a, T b) { return a < b ? b - a : a - b;} static T rnd(Rng &r) { return integral ? R(r.range(-20, 20)) : R(r.sym() * 4);}};
template <> struct cell<C> { static C get(std::vector<R> const &s, size_t k) { return C(s[k], s[k + 1]);} static void put(std::vector<R> &s, size_t k, C x) { s[k] = x.real(); s[k + 1] = x.imag();} static R dist(C a, C b) { R x = cell<R>::dist(a.real(), b.real()), y = cell<R>::dist(a.imag(), b.imag()); return x + y;} static C rnd(Rng &r) { R a = cell<R>::rnd(r); return C(a, cell<R>::rnd(r));}};
template <typename T> std::vector<T> Prog::vals(View const &v) const { std::vector<T> o; for (size_t k : v.c) o.push_back(cell<T>::get(store, k)); return o;}
template <typename T> void Prog::set(View const &v, std::vector<T> const &x) { for (size_t i = 0; i < x.size(); ++i) cell<T>::put(store, v.c[i], x[i]);}
template <typename T> void readv(View const &v, std::vector<T> &o);      // TU 0 and 1
template <typename T> R big(std::vector<T> const &a) { R m = 0; for (T const &x : a) m = std::max(m, cell<T>::dist(x, T())); return m;}
template <typename T> void Prog::judge(View const &d, std::vector<T> const &want, double mag, double ulps)
{
  std::vector<T> got; readv<T>(d, got);
  double tol = integral ? 0 : ulps * double(std::numeric_limits<R>::epsilon()) * (mag + double(big(want)));
  for (size_t i = 0; i < want.size(); ++i)
    if (!(double(cell<T>::dist(got[i], want[i])) <= tol)) { failed(str("element ", i, " of ", d.name(), " is ", got[i], " instead of ", want[i])); break;}
  set(d, got);
}
inline bool Prog::disjoint(View const &a, View const &b) const
{
  std::set<size_t> s; for (size_t k : a.c) { s.insert(k); if (a.cplx) s.insert(k + 1);}
  for (size_t k : b.c) if (s.count(k) || (b.cplx && s.count(k + 1))) return false;
  return true;
}
// one family per translation unit
template <typename T> void vec_pair(Prog &);     // assignments between vectors of all kinds
template <typename T> void vec_one(Prog &);      // operations on one vector
template <typename T> void mat_pair(Prog &);
template <typename T> void mat_one(Prog &);
void mixed(Prog &);                              // real/complex, products
void transforms(Prog &);
template <typename T> int which(bool mat) { return (mat ? 2 : 0) + (vt::is_cplx<T>::value ? 1 : 0);}

#if TU == 1 || TU == 2
#if TU == 1
typedef R TT;
#else
typedef C TT;
#endif
template <> void readv<TT>(View const &v, std::vector<TT> &o)
{
  typedef TT T;
  if (v.mat) onm<T>(v, [&](auto const &x) { for (index_type i = 0; i < x.size(0); ++i) for (index_type j = 0; j < x.size(1); ++j) o.push_back(x.get(i, j));});
  else onv<T>(v, [&](auto const &x) { for (index_type i = 0; i < x.size(); ++i) o.push_back(x.get(i));});
}
template <> void vec_pair<TT>(Prog &p)
{
  typedef TT T; View *d = p.pick(which<T>(false)); if (!d) return; View *s = p.other(which<T>(false), 1, d->cols, *d); if (!s) return;
  std::vector<T> a = p.vals<T>(*d), b = p.vals<T>(*s), w = a; int op = p.r.range(0, 4); T k = cell<T>::rnd(p.r); size_t n = a.size();
  static char const *nm[] = {"copy", "add-to", "combine", "swap", "subtract-product"};
  p.say(str(nm[op], " ", d->name(), "<-", s->name()));
  if (op == 0) { w = b; onv<T>(*d, [&](auto &x) { onv<T>(*s, [&](auto &y) { x = y;});});}
  else if (op == 1) { for (size_t i = 0; i < n; ++i) w[i] = a[i] + b[i]; onv<T>(*d, [&](auto &x) { onv<T>(*s, [&](auto &y) { x += y;});});}
  else if (op == 2) { for (size_t i = 0; i < n; ++i) w[i] = a[i] * k + b[i]; onv<T>(*d, [&](auto &x) { onv<T>(*s, [&](auto &y) { x = x * k + y;});});}
  else if (op == 3) { w = b; onv<T>(*d, [&](auto &x) { onv<T>(*s, [&](auto &y) { vsip::swap(x, y);});}); p.set(*d, w); if (!p.same(*d, *s)) p.judge(*s, a);}
  else { if (!in3<T>(*s)) { p.trace += "(no)"; return;} for (size_t i = 0; i < n; ++i) w[i] = b[i] - (a[i] * b[i]); onv<T>(*d, [&](auto &x) { onv3<T>(*s, [&](auto &y) { x = y - x * y;});});}
  p.judge(*d, w, double(big(a)) * (double(big(b)) + 30) + double(big(b)));
}
template <> void vec_one<TT>(Prog &p)
{
  typedef TT T; View *d = p.pick(which<T>(false)); if (!d) return;
  std::vector<T> a = p.vals<T>(*d), w = a; int op = p.r.range(0, 9); T k = cell<T>::rnd(p.r); size_t n = a.size(), at = p.r.range(0, n - 1); double m = 1;
  static char const *nm[] = {"fill", "scale", "put", "element", "negate", "sum", "dot", "direct", "reverse-copy", "self"};
  p.say(str(nm[op], " ", d->name()));
  if (op == 0) { w.assign(n, k); onv<T>(*d, [&](auto &x) { x = k;});}
  else if (op == 1) { for (T &x : w) x *= k; m = 30; onv<T>(*d, [&](auto &x) { x *= k;});}
  else if (op == 2) { w[at] = k; onv<T>(*d, [&](auto &x) { x.put(at, k);});}
  else if (op == 3) { w[at] += k; onv<T>(*d, [&](auto &x) { x(at) += k;});}
  else if (op == 4) { for (T &x : w) x = -x; onv<T>(*d, [&](auto &x) { x = -x;});}
  else if (op == 5) { T s = T(), g = T(); for (T x : a) s += x; onv<T>(*d, [&](auto &x) { g = vsip::sumval(x);}); if (!(double(cell<T>::dist(s, g)) <= (integral ? 0 : 64 * double(std::numeric_limits<R>::epsilon()) * n * (1 + double(big(a)))))) p.failed(str("sum ", g, " instead of ", s)); p.c.count("reductions");}
  else if (op == 6) { T s = T(), g = T(); for (T x : a) s += x * x; onv<T>(*d, [&](auto &x) { g = vsip::dot(x, x);}); double b = double(big(a)); if (!(double(cell<T>::dist(s, g)) <= (integral ? 0 : 64 * double(std::numeric_limits<R>::epsilon()) * n * (1 + b * b)))) p.failed(str("dot ", g, " instead of ", s)); p.c.count("reductions");}
  else if (op == 7)
  {
    for (T &x : w) x += k;
    if (p.r.coin()) onv<T>(*d, [&](auto &x) { typedef typename std::decay<decltype(x)>::type V; dda::Data<typename V::block_type, dda::inout, Layout<1, row1_type, dense, array> > z(x.block()); for (index_type i = 0; i < n; ++i) z.ptr()[i] += k;});
    else onv<T>(*d, [&](auto &x) { typedef typename std::decay<decltype(x)>::type V; dda::Data<typename V::block_type, dda::out, Layout<1, row1_type, dense, array> > z(x.block()); for (index_type i = 0; i < n; ++i) z.ptr()[i] = w[i];});
  }
  else if (op == 8) { for (size_t i = 0; i < n; ++i) w[i] = a[n - 1 - i]; if (d->kind == 2 || d->kind == 8) { p.trace += "(no)"; return;} Vector<T> t(n); onv3<T>(*d, [&](auto &x) { t = x(Domain<1>(n - 1, -1, n)); x = t;}); if (!in3<T>(*d)) w = a;}
  else { onv<T>(*d, [&](auto &x) { x = x;});}
  p.judge(*d, w, 1 + m * double(big(a)));
}
template <> void mat_pair<TT>(Prog &p)
{
  typedef TT T; View *d = p.pick(which<T>(true)); if (!d) return; bool tr = p.r.coin(1, 4); View *s = tr ? p.other(which<T>(true), d->cols, d->rows, *d, false) : p.other(which<T>(true), d->rows, d->cols, *d); if (!s) return;
  std::vector<T> a = p.vals<T>(*d), b = p.vals<T>(*s), w = a; T k = cell<T>::rnd(p.r); int op = tr ? 3 : p.r.range(0, 2); size_t n = a.size();
  static char const *nm[] = {"copy", "add-to", "combine", "transpose"};
  p.say(str(nm[op], " ", d->name(), "<-", s->name()));
  if (op == 0) { w = b; onm<T>(*d, [&](auto &x) { onm<T>(*s, [&](auto &y) { x = y;});});}
  else if (op == 1) { for (size_t i = 0; i < n; ++i) w[i] = a[i] + b[i]; onm<T>(*d, [&](auto &x) { onm<T>(*s, [&](auto &y) { x += y;});});}
  else if (op == 2) { if (!in3<T>(*s)) { p.trace += "(no)"; return;} for (size_t i = 0; i < n; ++i) w[i] = a[i] * k + b[i]; onm<T>(*d, [&](auto &x) { onm3<T>(*s, [&](auto &y) { x = x * k + y;});});}
  else { for (int i = 0; i < d->rows; ++i) for (int j = 0; j < d->cols; ++j) w[i * d->cols + j] = b[j * d->rows + i]; onm<T>(*d, [&](auto &x) { onm<T>(*s, [&](auto &y) { x = y.transpose();});});}
  p.judge(*d, w, double(big(a)) * 30 + double(big(b)));
}
template <> void mat_one<TT>(Prog &p)
{
  typedef TT T; View *d = p.pick(which<T>(true)); if (!d) return;
  std::vector<T> a = p.vals<T>(*d), w = a; T k = cell<T>::rnd(p.r); int op = p.r.range(0, 6), m = d->rows, n = d->cols, i0 = p.r.range(0, m - 1), j0 = p.r.range(0, n - 1);
  static char const *nm[] = {"fill", "scale", "put", "sum", "direct", "row-op", "col-op"};
  p.say(str(nm[op], " ", d->name()));
  if (op == 0) { w.assign(m * n, k); onm<T>(*d, [&](auto &x) { x = k;});}
  else if (op == 1) { for (T &x : w) x = x * k; onm<T>(*d, [&](auto &x) { x *= k;});}
  else if (op == 2) { w[i0 * n + j0] = k; onm<T>(*d, [&](auto &x) { x.put(i0, j0, k);});}
  else if (op == 3) { T s = T(), g = T(); for (T x : a) s += x; onm<T>(*d, [&](auto &x) { g = vsip::sumval(x);}); if (!(double(cell<T>::dist(s, g)) <= (integral ? 0 : 64 * double(std::numeric_limits<R>::epsilon()) * m * n * (1 + double(big(a)))))) p.failed(str("sum ", g, " instead of ", s)); p.c.count("reductions");}
  else if (op == 4)
  {
    for (T &x : w) x += k;
    if (p.r.coin()) onm<T>(*d, [&](auto &x) { typedef typename std::decay<decltype(x)>::type V; dda::Data<typename V::block_type, dda::inout, Layout<2, col2_type, dense, array> > z(x.block()); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) z.ptr()[i + j * m] += k;});
    else onm<T>(*d, [&](auto &x) { typedef typename std::decay<decltype(x)>::type V; dda::Data<typename V::block_type, dda::inout, Layout<2, row2_type, aligned_32, array> > z(x.block()); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) z.ptr()[i * z.stride(0) + j * z.stride(1)] += k;});
  }
  else if (op == 5) { for (int j = 0; j < n; ++j) w[i0 * n + j] += k; onm<T>(*d, [&](auto &x) { x.row(i0) += k;});}
  else { for (int i = 0; i < m; ++i) w[i * n + j0] *= k; onm<T>(*d, [&](auto &x) { x.col(j0) *= k;});}
  p.judge(*d, w, 1 + 30 * double(big(a)));
}
#endif

#if TU == 3
// products, and operations between real and complex views
template <typename T> static void products(Prog &p)
{
  View *d, *s, *t; int op = p.r.range(0, 5);
  static char const *nm[] = {"prod-mm", "prod-mv", "prod-vm", "outer", "vmmul", "gemp"};
  auto fit = [&](int w, int rows, int cols, View const &dst) { std::vector<View *> q; for (View &v : p.pool[w]) if (in3<T>(v) && (rows < 0 || v.rows == rows) && (cols < 0 || v.cols == cols) && p.disjoint(v, dst)) q.push_back(&v); return q.empty() ? (View *)0 : p.r.pick(q);};
  int V = which<T>(false), M = which<T>(true);
  d = p.pick(op == 1 || op == 2 ? V : M); if (!d || !in3<T>(*d)) return;
  std::vector<T> w = p.vals<T>(*d), a, b; double old = double(big(w));
  if (op == 0 || op == 5)
  {
    if (!(s = fit(M, d->rows, -1, *d)) || !(t = fit(M, s->cols, d->cols, *d))) return;
    a = p.vals<T>(*s); b = p.vals<T>(*t); T al = op == 5 ? cell<T>::rnd(p.r) : T(1), be = op == 5 ? cell<T>::rnd(p.r) : T(0); int K = s->cols, N = d->cols;
    if (op == 5 && (integral || s->kind > 1 || t->kind > 1)) return;
    p.say(str(nm[op], " ", d->name(), "<-", s->name(), t->name()));
    for (int i = 0; i < d->rows; ++i) for (int j = 0; j < N; ++j) { T x = T(); for (int k = 0; k < K; ++k) x += a[i * K + k] * b[k * N + j]; w[i * N + j] = op == 5 ? al * x + be * w[i * N + j] : x;}
    if (op == 0) onm3<T>(*d, [&](auto &x) { onm3<T>(*s, [&](auto &y) { onm3<T>(*t, [&](auto &z) { x = vsip::prod(y, z);});});});
#if !INTEGRAL
    else onm3<T>(*d, [&](auto &x) { onm3<T>(*s, [&](auto &y) { onm3<T>(*t, [&](auto &z) { vsip::gemp<mat_ntrans, mat_ntrans>(al, y, z, be, x);});});});
#endif
    p.judge(*d, w, 1 + 30 * (K * double(big(a)) * double(big(b)) + old));
  }
  else if (op == 1 || op == 2)
  {
    int n = d->cols; if (!(s = op == 1 ? fit(M, n, -1, *d) : fit(M, -1, n, *d)) || !(t = fit(V, 1, op == 1 ? s->cols : s->rows, *d))) return;
    a = p.vals<T>(*s); b = p.vals<T>(*t); p.say(str(nm[op], " ", d->name(), "<-", s->name(), t->name()));
    for (int i = 0; i < n; ++i) { T x = T(); if (op == 1) for (int k = 0; k < s->cols; ++k) x += a[i * s->cols + k] * b[k]; else for (int k = 0; k < s->rows; ++k) x += b[k] * a[k * s->cols + i]; w[i] = x;}
    if (op == 1) onv3<T>(*d, [&](auto &x) { onm3<T>(*s, [&](auto &y) { onv3<T>(*t, [&](auto &z) { x = vsip::prod(y, z);});});});
    else onv3<T>(*d, [&](auto &x) { onm3<T>(*s, [&](auto &y) { onv3<T>(*t, [&](auto &z) { x = vsip::prod(z, y);});});});
    p.judge(*d, w, 1 + 8 * double(big(a)) * double(big(b)));
  }
  else if (op == 3)
  {
    if (integral || !(s = fit(V, 1, d->rows, *d)) || !(t = fit(V, 1, d->cols, *d))) return;
    a = p.vals<T>(*s); b = p.vals<T>(*t); T al = cell<T>::rnd(p.r); p.say(str(nm[op], " ", d->name(), "<-", s->name(), t->name()));
    for (int i = 0; i < d->rows; ++i) for (int j = 0; j < d->cols; ++j) w[i * d->cols + j] = al * a[i] * cell<T>::get(std::vector<R>{std::real(b[j]), R(-std::imag(b[j]))}, 0);
#if !INTEGRAL
    onm3<T>(*d, [&](auto &x) { onv3<T>(*s, [&](auto &y) { onv3<T>(*t, [&](auto &z) { x = vsip::outer(al, y, z);});});});
#endif
    p.judge(*d, w, 1 + 30 * double(big(a)) * double(big(b)));
  }
  else
  {
    bool col = p.r.coin(); if (!(s = fit(V, 1, col ? d->rows : d->cols, *d))) return; a = p.vals<T>(*s); p.say(str(nm[op], " ", d->name(), "<-", s->name()));
    for (int i = 0; i < d->rows; ++i) for (int j = 0; j < d->cols; ++j) w[i * d->cols + j] = w[i * d->cols + j] * a[col ? i : j];
    onm3<T>(*d, [&](auto &x) { onv3<T>(*s, [&](auto &y) { if (col) x = vsip::vmmul<1>(y, x); else x = vsip::vmmul<0>(y, x);});});
    p.judge(*d, w, 1 + 4 * double(big(a)) * old);
  }
  p.c.count("products");
}
#if !INTEGRAL
static void crossed(Prog &p)
{
  View *d, *s; int op = p.r.range(0, 4); bool m = p.r.coin(); int RV = m ? 2 : 0, CV = m ? 3 : 1;
  static char const *nm[] = {"real-times-complex", "mag", "real", "compose", "conj"};
  if (op == 1 || op == 2)
  {
    d = p.pick(RV); if (!d || !in3<R>(*d)) return; s = p.other(CV, d->rows, d->cols, *d, false); if (!s || !in3<C>(*s)) return;
    std::vector<C> a = p.vals<C>(*s); std::vector<R> w; for (C x : a) w.push_back(op == 1 ? std::abs(x) : x.real()); p.say(str(nm[op], " ", d->name(), "<-", s->name()));
    if (m) onm3<R>(*d, [&](auto &x) { onm3<C>(*s, [&](auto &y) { if (op == 1) x = mag(y); else x = real(y);});});
    else onv3<R>(*d, [&](auto &x) { onv3<C>(*s, [&](auto &y) { if (op == 1) x = mag(y); else x = real(y);});});
    p.judge(*d, w, double(big(a))); return;
  }
  d = p.pick(CV); if (!d) return;
  std::vector<C> a = p.vals<C>(*d), w = a; std::vector<R> b;
  if (op == 4) { for (C &x : w) x = std::conj(x); p.say(str(nm[op], " ", d->name())); if (m) onm<C>(*d, [&](auto &x) { x = conj(x);}); else onv<C>(*d, [&](auto &x) { x = conj(x);}); p.judge(*d, w); return;}
  s = p.other(RV, d->rows, d->cols, *d, false); if (!s || !in3<R>(*s)) return; b = p.vals<R>(*s); p.say(str(nm[op], " ", d->name(), "<-", s->name()));
  for (size_t i = 0; i < w.size(); ++i) w[i] = op == 0 ? a[i] * b[i] : C(b[i], b[i]);
  if (m) onm4<C>(*d, [&](auto &x) { onm3<R>(*s, [&](auto &y) { if (op == 0) x = y * x; else x = cmplx(y, y);});}); else onv3<C>(*d, [&](auto &x) { onv3<R>(*s, [&](auto &y) { if (op == 0) x = y * x; else x = cmplx(y, y);});});
  if (m ? !(d->kind <= 2 || d->kind == 5) : !in3<C>(*d)) w = a;
  p.judge(*d, w, double(big(a)) * (1 + double(big(b))));
}
#endif
void mixed(Prog &p)
{
#if !INTEGRAL
  int k = p.r.range(0, 2); if (k == 0) products<R>(p); else if (k == 1) products<C>(p); else crossed(p);
#else
  products<R>(p);
#endif
}
#endif

#if TU == 4
#if !INTEGRAL
static std::vector<C> dft(std::vector<C> const &x, int sign, size_t start, size_t step, size_t n)
{
  std::vector<C> o; for (size_t k = 0; k < n; ++k) { std::complex<double> s = 0; for (size_t i = 0; i < n; ++i) { double ph = sign * 2 * M_PI * double((i * k) % n) / double(n); s += std::complex<double>(x[start + i * step]) * std::complex<double>(cos(ph), sin(ph));} o.push_back(C(s));}
  return o;
}
template <int Dir> static void fft1(Prog &p, View *d, View *s)
{
  size_t n = d->cols; std::vector<C> a = p.vals<C>(*s); R sc = p.r.coin() ? R(1) : R(0.25); std::vector<C> w = dft(a, Dir == fft_fwd ? -1 : 1, 0, 1, n); for (C &x : w) x *= sc;
  int how = p.r.range(0, 1); if (p.same(*d, *s)) how = 2; else if (s->kind != 0 && s->kind != 1 && s->kind != 5) return;
  p.say(str(how == 2 ? "fft-in-place " : how ? "fft-value " : "fft-reference ", d->name(), "<-", s->name()));
  if (how == 1) { Fft<const_Vector, C, C, Dir, by_value> f(Domain<1>(n), sc); onv<C>(*d, [&](auto &x) { onv3<C>(*s, [&](auto &y) { x = f(y);});});}
  else
  {
    Fft<const_Vector, C, C, Dir, by_reference> f(Domain<1>(n), sc);
    if (how == 2) onv<C>(*d, [&](auto &x) { f(x);}); else onv<C>(*d, [&](auto &x) { onv3<C>(*s, [&](auto &y) { f(y, x);});});
  }
  p.judge(*d, w, 1 + n * double(big(a)), 64);
}
template <int A, int Dir> static void fftm(Prog &p, View *d, View *s)
{
  size_t m = d->rows, n = d->cols; std::vector<C> a = p.vals<C>(*s), w(m * n); bool in = p.same(*d, *s); if (!in && !(s->kind <= 2)) return; if (!(d->kind <= 2 || d->kind == 5)) return;
  if (A == row) for (size_t i = 0; i < m; ++i) { auto o = dft(a, Dir == fft_fwd ? -1 : 1, i * n, 1, n); for (size_t j = 0; j < n; ++j) w[i * n + j] = o[j];}
  else for (size_t j = 0; j < n; ++j) { auto o = dft(a, Dir == fft_fwd ? -1 : 1, j, n, m); for (size_t i = 0; i < m; ++i) w[i * n + j] = o[i];}
  p.say(str(in ? "fftm-in-place " : "fftm ", d->name(), "<-", s->name(), A == row ? " rows" : " columns"));
  Fftm<C, C, A, Dir, by_reference> f(Domain<2>(m, n), R(1));
  if (in) onm4<C>(*d, [&](auto &x) { f(x);}); else onm4<C>(*d, [&](auto &x) { onm3<C>(*s, [&](auto &y) { f(y, x);});});
  p.judge(*d, w, 1 + (m + n) * double(big(a)), 64);
}
static void rfft(Prog &p)
{
  View *d = p.pick(1); if (!d || !in3<C>(*d) || d->cols < 2) return; size_t n = 2 * (d->cols - 1); View *s = p.other(0, 1, n, *d, false); if (!s || !in3<R>(*s)) return;
  std::vector<R> a = p.vals<R>(*s); std::vector<C> x(a.begin(), a.end()), w = dft(x, -1, 0, 1, n); w.resize(d->cols); p.say(str("rfft ", d->name(), "<-", s->name()));
  Fft<const_Vector, R, C, 0, by_reference> f(Domain<1>(n), 1); onv3<C>(*d, [&](auto &y) { onv3<R>(*s, [&](auto &z) { f(z, y);});});
  p.judge(*d, w, 1 + n * double(big(a)), 64);
}
void transforms(Prog &p)
{
  int k = p.r.range(0, 3); p.c.count("transforms");
  if (k == 3) return rfft(p);
  View *d = p.pick(k == 2 ? 3 : 1); if (!d) return; View *s = p.r.coin(1, 3) ? d : p.other(k == 2 ? 3 : 1, d->rows, d->cols, *d); if (!s) return;
  if (k == 2) { int q = p.r.range(0, 3); if (q == 0) fftm<row, fft_fwd>(p, d, s); else if (q == 1) fftm<col, fft_fwd>(p, d, s); else if (q == 2) fftm<row, fft_inv>(p, d, s); else fftm<col, fft_inv>(p, d, s);}
  else if (k == 0) fft1<fft_fwd>(p, d, s); else fft1<fft_inv>(p, d, s);
}
#else
void transforms(Prog &p)
{
  View *d = p.pick(0); if (!d) return; View *s = p.other(0, 1, d->cols, *d, false); if (!s || !in3<R>(*s) || !in3<R>(*d)) return; int op = p.r.range(0, 2);
  std::vector<R> a = p.vals<R>(*s), w = p.vals<R>(*d), t = w; p.say(str("integer ", op, " ", d->name(), "<-", s->name()));
  for (size_t i = 0; i < w.size(); ++i) w[i] = op == 0 ? std::max(t[i], a[i]) : op == 1 ? (t[i] ^ a[i]) : (t[i] > a[i] ? t[i] : 3);
  onv3<R>(*d, [&](auto &x) { onv3<R>(*s, [&](auto &y) { if (op == 0) x = vsip::max(x, y); else if (op == 1) x = vsip::bxor(x, y); else x = vsip::ite(x > y, x, 3);});});
  p.judge(*d, w);
}
#endif
#endif

#if TU == 5
static int size_(Rng &r) { static int const s[] = {1, 2, 3, 4, 4, 6, 8}; return s[r.range(0, 6)];}
template <typename X> std::shared_ptr<void> keep(X const &x) { return std::shared_ptr<X>(new X(x));}
template <typename T> size_t fresh(Prog &p, int n) { size_t k = p.store.size(); p.store.resize(k + n * (vt::is_cplx<T>::value ? 2 : 1)); return k;}
template <typename T> View make(int kind, int rows, int cols, bool mat, std::shared_ptr<void> q, std::vector<size_t> const &c) { View v; v.kind = kind; v.rows = rows; v.cols = cols; v.cplx = vt::is_cplx<T>::value; v.mat = mat; v.p = q; v.c = c; return v;}
template <typename T> void create(Prog &p)
{
  int const w = vt::is_cplx<T>::value ? 2 : 1; bool mat = p.r.coin(); int m = mat ? size_(p.r) : 1, n = size_(p.r), how = p.r.range(0, 3);
  size_t base = fresh<T>(p, m * n); std::vector<size_t> c; for (int i = 0; i < m * n; ++i) c.push_back(base + w * i);
  std::vector<T> x; T k = cell<T>::rnd(p.r); for (int i = 0; i < m * n; ++i) x.push_back(how == 0 ? k : cell<T>::rnd(p.r));
  int kind = 0; std::shared_ptr<void> q;
  auto fill1 = [&](auto &v) { for (int i = 0; i < n; ++i) v.put(i, x[i]);};
  auto fill2 = [&](auto &v) { for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) v.put(i, j, x[i * n + j]);};
  if (!mat)
  {
    if (w == 2 && how == 3) { kind = 7; typedef typename VK<T, w == 2 ? 7 : 0>::type X; X v(n); fill1(v); q = keep(v);}
    else if (how == 2)
    {
      p.mems.push_back(std::unique_ptr<std::vector<R> >(new std::vector<R>(w * n))); std::vector<R> &mem = *p.mems.back();
      for (int i = 0; i < n; ++i) { mem[w * i] = std::real(x[i]); if (w == 2) mem[w * i + 1] = std::imag(x[i]);}
      Dense<1, T> *b = new Dense<1, T>(Domain<1>(n), reinterpret_cast<T *>(&mem[0])); Vector<T> v(*b); b->decrement_count(); v.block().admit(true); q = keep(v);
      Prog::User u = {q, &mem, w == 2, c}; p.users.push_back(u);
    }
    else if (how == 0) { Vector<T> v(n, k); q = keep(v);} else { Vector<T> v(n); fill1(v); q = keep(v);}
  }
  else if (p.r.coin(1, 3)) { kind = 1; typename MK<T, 1>::type v(m, n); fill2(v); q = keep(v);}
  else if (w == 2 && p.r.coin(1, 3)) { kind = 5; typename MK<T, w == 2 ? 5 : 0>::type v(m, n); fill2(v); q = keep(v);}
  else if (how == 0) { Matrix<T> v(m, n, k); q = keep(v);} else { Matrix<T> v(m, n); fill2(v); q = keep(v);}
  View v = make<T>(kind, m, n, mat, q, c); p.set(v, x); p.say(str("create ", v.name())); p.pool[which<T>(mat)].push_back(v);
}
template <typename T> void tensor(Prog &p)
{
  int const w = vt::is_cplx<T>::value ? 2 : 1; int a = p.r.range(1, 3), b = size_(p.r), d = size_(p.r); size_t base = fresh<T>(p, a * b * d); Tensor<T> t(a, b, d);
  std::vector<R> none; for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) for (int k = 0; k < d; ++k) { T x = cell<T>::rnd(p.r); t.put(i, j, k, x); cell<T>::put(p.store, base + w * ((i * b + j) * d + k), x);}
  for (int z = 0; z < 2; ++z)
  {
    int i = p.r.range(0, a - 1), k = p.r.range(0, d - 1); std::vector<size_t> c; for (int j = 0; j < b; ++j) for (int l = 0; l < d; ++l) c.push_back(base + w * ((i * b + j) * d + l));
    p.pool[which<T>(true)].push_back(make<T>(6, b, d, true, keep(typename MK<T, 6>::type(t(i, whole_domain, whole_domain))), c));
    c.clear(); for (int j = 0; j < b; ++j) c.push_back(base + w * ((i * b + j) * d + k));
    p.pool[which<T>(false)].push_back(make<T>(9, 1, b, false, keep(typename VK<T, 9>::type(t(i, whole_domain, k))), c));
  }
  p.say("create slices of a tensor");
}
static Domain<1> sub(Rng &r, int n) { int s = r.range(1, 3), l = r.range(1, (n - 1) / s + 1); if (r.coin(1, 2)) { s = 1; l = r.range(1, n);} int f = r.range(0, n - 1 - (l - 1) * s); if (r.coin(1, 4)) return Domain<1>(f + (l - 1) * s, -s, l); return Domain<1>(f, s, l);}
static std::vector<size_t> cut(std::vector<size_t> const &c, int cols, Domain<1> const &a, Domain<1> const &b) { std::vector<size_t> o; for (length_type i = 0; i < a.size(); ++i) for (length_type j = 0; j < b.size(); ++j) o.push_back(c[a.impl_nth(i) * cols + b.impl_nth(j)]); return o;}
template <typename T> void derive(Prog &p)
{
  bool mat = p.r.coin(2, 3); View *v = p.pick(which<T>(mat)); if (!v) return; View s = *v; int V = which<T>(false), M = which<T>(true); Domain<1> one(1);
  if (!mat)
  {
    Domain<1> d = sub(p.r, s.cols); std::vector<size_t> c = cut(s.c, s.cols, one, d); std::shared_ptr<void> q; int kind = -1;
    if (s.kind == 0) { kind = 1; q = keep(typename VK<T, 1>::type((*static_cast<Vector<T> *>(s.p.get()))(d)));}
    else if (s.kind == 1) { kind = 2; q = keep(typename VK<T, 2>::type((*static_cast<typename VK<T, 1>::type *>(s.p.get()))(d)));}
    else if (s.kind == 7 && vt::is_cplx<T>::value) { kind = 8; bool const z = vt::is_cplx<T>::value; q = keep(typename VK<T, z ? 8 : 1>::type((*static_cast<typename VK<T, z ? 7 : 0>::type *>(s.p.get()))(d)));}
    if (kind < 0) return; View n = make<T>(kind, 1, d.size(), false, q, c); p.say(str("subview ", n.name(), " of ", s.name())); p.pool[V].push_back(n); return;
  }
  int k = p.r.range(0, 5), m = s.rows, n = s.cols, i = p.r.range(0, m - 1), j = p.r.range(0, n - 1);
  if (s.kind == 0)
  {
    Matrix<T> x = *static_cast<Matrix<T> *>(s.p.get());
    if (k == 0) p.pool[V].push_back(make<T>(3, 1, n, false, keep(typename VK<T, 3>::type(x.row(i))), cut(s.c, n, Domain<1>(i, 1, 1), Domain<1>(n))));
    else if (k == 1) p.pool[V].push_back(make<T>(5, 1, m, false, keep(typename VK<T, 5>::type(x.col(j))), cut(s.c, n, Domain<1>(m), Domain<1>(j, 1, 1))));
    else if (k == 2) { int o = p.r.range(-(m - 1), n - 1); std::vector<size_t> c; for (int a = 0; a < m; ++a) if (a + o >= 0 && a + o < n) c.push_back(s.c[a * n + a + o]); p.pool[V].push_back(make<T>(6, 1, c.size(), false, keep(typename VK<T, 6>::type(x.diag(o))), c));}
    else if (k == 3) { std::vector<size_t> c; for (int b = 0; b < n; ++b) for (int a = 0; a < m; ++a) c.push_back(s.c[a * n + b]); p.pool[M].push_back(make<T>(3, n, m, true, keep(typename MK<T, 3>::type(x.transpose())), c));}
    else { Domain<1> a = sub(p.r, m), b = sub(p.r, n); p.pool[M].push_back(make<T>(2, a.size(), b.size(), true, keep(typename MK<T, 2>::type(x(Domain<2>(a, b)))), cut(s.c, n, a, b)));}
    p.say(str("derive ", k, " of ", s.name()));
  }
  else if (s.kind == 1)
  {
    typename MK<T, 1>::type x = *static_cast<typename MK<T, 1>::type *>(s.p.get());
    if (k < 3) p.pool[V].push_back(make<T>(4, 1, n, false, keep(typename VK<T, 4>::type(x.row(i))), cut(s.c, n, Domain<1>(i, 1, 1), Domain<1>(n))));
    else { Domain<1> a = sub(p.r, m), b = sub(p.r, n); p.pool[M].push_back(make<T>(4, a.size(), b.size(), true, keep(typename MK<T, 4>::type(x(Domain<2>(a, b)))), cut(s.c, n, a, b)));}
    p.say(str("derive ", k, " of ", s.name()));
  }
}
#if !INTEGRAL
static void component(Prog &p)
{
  bool mat = p.r.coin(1, 3); View *v = p.pick(mat ? 3 : 1); if (!v) return; View s = *v; std::vector<size_t> c = s.c, d = s.c; for (size_t &k : d) ++k;
  if (mat && s.kind == 0) p.pool[2].push_back(make<R>(5, s.rows, s.cols, true, keep(MK<R, 5>::type(static_cast<Matrix<C> *>(s.p.get())->imag())), d));
  else if (!mat && s.kind == 0) p.pool[0].push_back(make<R>(7, 1, s.cols, false, keep(VK<R, 7>::type(static_cast<Vector<C> *>(s.p.get())->real())), c));
  else if (!mat && s.kind == 7) p.pool[0].push_back(make<R>(8, 1, s.cols, false, keep(VK<R, 8>::type(static_cast<Vector<C, Split<1> > *>(s.p.get())->imag())), d));
  else return;
  p.say(str("component of ", s.name()));
}
#endif
template <typename T> void release(Prog &p, Prog::User &u)
{
  int const w = vt::is_cplx<T>::value ? 2 : 1; Vector<T> &v = *static_cast<Vector<T> *>(u.view.get()); T *old; bool save = p.r.coin(3, 4); p.say(str("release ", save)); v.block().release(save, old);
  if (reinterpret_cast<R *>(old) != &(*u.mem)[0]) p.failed("release returned another pointer");
  for (size_t i = 0; i < u.cells.size(); ++i) for (int k = 0; k < w; ++k)
  {
    if (save && !((*u.mem)[w * i + k] == p.store[u.cells[i] + k])) p.failed(str("user storage element ", i, " is ", (*u.mem)[w * i + k], " instead of ", p.store[u.cells[i] + k]));
    if (p.r.coin(1, 3)) (*u.mem)[w * i + k] = cell<R>::rnd(p.r);
    p.store[u.cells[i] + k] = (*u.mem)[w * i + k];
  }
  v.block().admit(true); p.c.count("released and admitted");
}
template <typename T> void shrink(Prog &p)
{
  for (int mat = 0; mat < 2; ++mat) for (View &d : p.pool[which<T>(mat)])
  {
    std::vector<T> a = p.vals<T>(d); R b = big(a); if (b < R(1000)) continue;
    p.say("rescale"); R f = integral ? R(1000) : R(1); while (!integral && b / f > R(100)) f *= 2; for (T &x : a) x = x / f;
    if (mat) onm<T>(d, [&](auto &x) { x /= f;}); else onv<T>(d, [&](auto &x) { x /= f;});
    p.judge(d, a);
  }
}
template <typename T> bool audit(Prog &p)
{
  for (int mat = 0; mat < 2; ++mat) for (View &v : p.pool[which<T>(mat)])
  {
    std::vector<T> g, w = p.vals<T>(v); readv<T>(v, g);
    for (size_t i = 0; i < w.size(); ++i) if (!(g[i] == w[i])) { p.failed(str("afterwards element ", i, " of ", v.name(), " is ", g[i], " instead of ", w[i])); return false;}
    if (g.size() != w.size()) { p.failed("size"); return false;}
  }
  return true;
}
static void program(Ctx &c, int len)
{
  Prog p(c, c.rng.next());
  for (int i = 0; i < 6; ++i) { create<R>(p);
#if !INTEGRAL
    create<C>(p);
#endif
  }
  for (int i = 0; i < len && !p.bad; ++i)
  {
    ++p.steps; int k = p.r.range(0, 30); size_t before = p.trace.size(); (void)before; p.last = "";
    if (k < 2) create<R>(p); else if (k == 3) { if (p.r.coin(1, 3)) tensor<R>(p);} else if (k < 7) derive<R>(p);
    else if (k < 10) vec_pair<R>(p); else if (k < 12) vec_one<R>(p); else if (k < 14) mat_pair<R>(p); else if (k < 15) mat_one<R>(p); else if (k < 18) mixed(p); else if (k < 20) transforms(p);
    else if (k < 21) { if (!p.users.empty()) { Prog::User &u = p.users[p.r.range(0, p.users.size() - 1)];
#if !INTEGRAL
      if (u.cplx) release<C>(p, u); else
#endif
      release<R>(p, u);}}
    else
#if !INTEGRAL
    if (k < 22) create<C>(p); else if (k == 22) { if (p.r.coin(1, 3)) tensor<C>(p);} else if (k < 25) derive<C>(p); else if (k == 25) component(p); else if (k < 28) vec_pair<C>(p); else if (k < 29) vec_one<C>(p); else if (k < 30) mat_pair<C>(p); else mat_one<C>(p);
#else
    { if (p.r.coin()) vec_pair<R>(p); else mat_pair<R>(p);}
#endif
    if (!p.last.empty() && !p.bad)
    {
      bool ok = audit<R>(p);
#if !INTEGRAL
      ok = ok && audit<C>(p);
#endif
      if (ok) { c.ok(p.last); c.count("steps"); for (auto &q : p.pool) for (View &v : q) c.count("elements compared", v.n());}
    }
    for (auto &q : p.pool) while (q.size() > 14) q.erase(q.begin() + p.r.range(0, q.size() - 1));
    shrink<R>(p);
#if !INTEGRAL
    shrink<C>(p);
#endif
  }
  c.count("programs");
}
void vt_main(Ctx &c) { for (int i = 0; i < c.n(12); ++i) program(c, 150);}
#include "main.hpp"
#endif
