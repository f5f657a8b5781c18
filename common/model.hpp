// Reference model of views: a view is a list of parent element numbers.
//   Sel<D>   the elements of the parent a view must denote, in row-major order
//   Item     a live view together with the live parent it selects from and
//            the parent elements it must select; knows how to verify that
//            exactly those elements were written
#ifndef VT_MODEL_HPP
#define VT_MODEL_HPP
#include "vt.hpp"
#include <vsip/initfin.hpp>
#include <vsip/support.hpp>
#include <vsip/complex.hpp>
#include <vsip/domain.hpp>
#include <vsip/dense.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/math.hpp>
#include <ovxx/strided.hpp>

namespace vt
{
using vsip::length_type; using vsip::index_type; using vsip::stride_type;
using vsip::Domain; using vsip::Index;

template <int D> struct Sel
{
  long n[3]; std::vector<long> idx;
  Sel() { n[0] = n[1] = n[2] = 1;}
  long total() const { return long(idx.size());}
  long lin(long i, long j = 0, long k = 0) const
  { return D == 1 ? i : D == 2 ? i * n[1] + j : (i * n[1] + j) * n[2] + k;}
  long at(long i, long j = 0, long k = 0) const { return idx[lin(i, j, k)];}
  static Sel all(long a, long b = 1, long c = 1)
  {
    Sel s; s.n[0] = a; s.n[1] = D > 1 ? b : 1; s.n[2] = D > 2 ? c : 1;
    long t = s.n[0] * s.n[1] * s.n[2];
    for (long i = 0; i < t; ++i) s.idx.push_back(i);
    return s;
  }
};

// element access by row-major number, independent of the library's own traversal
template <typename V> typename std::enable_if<V::dim == 1, typename V::value_type>::type
vget(V const &v, long const *, long l) { return v.get(l);}
template <typename V> typename std::enable_if<V::dim == 2, typename V::value_type>::type
vget(V const &v, long const *n, long l) { return v.get(l / n[1], l % n[1]);}
template <typename V> typename std::enable_if<V::dim == 3, typename V::value_type>::type
vget(V const &v, long const *n, long l) { return v.get(l / (n[1] * n[2]), l / n[2] % n[1], l % n[2]);}
template <typename V, typename T> typename std::enable_if<V::dim == 1>::type
vput(V v, long const *, long l, T x) { v.put(l, x);}
template <typename V, typename T> typename std::enable_if<V::dim == 2>::type
vput(V v, long const *n, long l, T x) { v.put(l / n[1], l % n[1], x);}
template <typename V, typename T> typename std::enable_if<V::dim == 3>::type
vput(V v, long const *n, long l, T x) { v.put(l / (n[1] * n[2]), l / n[2] % n[1], l % n[2], x);}

template <typename V> void sizes(V const &v, long *n)
{ n[0] = n[1] = n[2] = 1; for (int d = 0; d < int(V::dim); ++d) n[d] = long(v.size(d));}

template <typename V> std::vector<typename V::value_type> readall(V const &v)
{
  long n[3]; sizes(v, n);
  std::vector<typename V::value_type> r;
  long t = n[0] * n[1] * n[2];
  r.reserve(t);
  for (long l = 0; l < t; ++l) r.push_back(vget(v, n, l));
  return r;
}
template <typename V, typename T> void writeall(V v, std::vector<T> const &x)
{
  long n[3]; sizes(v, n);
  for (long l = 0; l < long(x.size()); ++l) vput(v, n, l, T(x[l]));
}

// ---- subdomains -----------------------------------------------------------
// a random non-empty selection first,stride,length within [0,size); negative
// strides included
inline Domain<1> rdom(Rng &r, long size, bool neg = true)
{
  long len = r.range(1, size);
  if (r.coin(1, 6)) len = 1;
  long maxs = len > 1 ? (size - 1) / (len - 1) : 3;
  long st = r.range(1, std::max(1L, std::min(maxs, 4L)));
  long span = (len - 1) * st;
  long first = r.range(0, size - 1 - span);
  if (neg && r.coin(1, 3)) return Domain<1>(first + span, -st, len);
  return Domain<1>(first, st, len);
}
inline std::string sdom(Domain<1> const &d)
{ return str(d.first(), ":", long(d.stride()), ":", d.length());}

inline Sel<1> sub(Sel<1> const &s, Domain<1> const &d)
{
  Sel<1> r; r.n[0] = d.length();
  for (long i = 0; i < r.n[0]; ++i) r.idx.push_back(s.idx[long(d.first()) + i * long(d.stride())]);
  return r;
}
inline Sel<2> sub(Sel<2> const &s, Domain<1> const &a, Domain<1> const &b)
{
  Sel<2> r; r.n[0] = a.length(); r.n[1] = b.length();
  for (long i = 0; i < r.n[0]; ++i)
    for (long j = 0; j < r.n[1]; ++j)
      r.idx.push_back(s.at(long(a.first()) + i * long(a.stride()), long(b.first()) + j * long(b.stride())));
  return r;
}
inline Sel<3> sub(Sel<3> const &s, Domain<1> const &a, Domain<1> const &b, Domain<1> const &c)
{
  Sel<3> r; r.n[0] = a.length(); r.n[1] = b.length(); r.n[2] = c.length();
  for (long i = 0; i < r.n[0]; ++i)
    for (long j = 0; j < r.n[1]; ++j)
      for (long k = 0; k < r.n[2]; ++k)
        r.idx.push_back(s.at(long(a.first()) + i * long(a.stride()), long(b.first()) + j * long(b.stride()),
                             long(c.first()) + k * long(c.stride())));
  return r;
}
inline Sel<1> srow(Sel<2> const &s, long i)
{ Sel<1> r; r.n[0] = s.n[1]; for (long j = 0; j < s.n[1]; ++j) r.idx.push_back(s.at(i, j)); return r;}
inline Sel<1> scol(Sel<2> const &s, long j)
{ Sel<1> r; r.n[0] = s.n[0]; for (long i = 0; i < s.n[0]; ++i) r.idx.push_back(s.at(i, j)); return r;}
inline Sel<1> sdiag(Sel<2> const &s, long k)
{
  Sel<1> r; r.n[0] = 0;
  for (long i = 0; i < s.n[0]; ++i)
    if (i + k >= 0 && i + k < s.n[1]) { r.idx.push_back(s.at(i, i + k)); ++r.n[0];}
  return r;
}
inline Sel<2> trans(Sel<2> const &s)
{
  Sel<2> r; r.n[0] = s.n[1]; r.n[1] = s.n[0];
  for (long i = 0; i < r.n[0]; ++i) for (long j = 0; j < r.n[1]; ++j) r.idx.push_back(s.at(j, i));
  return r;
}
// fixed coordinate d at i
inline Sel<2> slice(Sel<3> const &s, int d, long x)
{
  Sel<2> r; int a = d == 0 ? 1 : 0, b = d == 2 ? 1 : 2;
  r.n[0] = s.n[a]; r.n[1] = s.n[b];
  for (long i = 0; i < r.n[0]; ++i)
    for (long j = 0; j < r.n[1]; ++j)
    { long c[3]; c[d] = x; c[a] = i; c[b] = j; r.idx.push_back(s.at(c[0], c[1], c[2]));}
  return r;
}
// free coordinate d, the others at x (lower dim) and y
inline Sel<1> fibre(Sel<3> const &s, int d, long x, long y)
{
  Sel<1> r; int a = d == 0 ? 1 : 0, b = d == 2 ? 1 : 2;
  r.n[0] = s.n[d];
  for (long i = 0; i < r.n[0]; ++i)
  { long c[3]; c[d] = i; c[a] = x; c[b] = y; r.idx.push_back(s.at(c[0], c[1], c[2]));}
  return r;
}
// transpose<D0,D1,D2>: dimension e of the result is dimension De of the parent
inline Sel<3> permute(Sel<3> const &s, int d0, int d1, int d2)
{
  int p[3] = {d0, d1, d2};
  Sel<3> r; for (int e = 0; e < 3; ++e) r.n[e] = s.n[p[e]];
  for (long i = 0; i < r.n[0]; ++i)
    for (long j = 0; j < r.n[1]; ++j)
      for (long k = 0; k < r.n[2]; ++k)
      { long c[3]; c[p[0]] = i; c[p[1]] = j; c[p[2]] = k; r.idx.push_back(s.at(c[0], c[1], c[2]));}
  return r;
}

// ---- a view over a live parent --------------------------------------------
enum comp_t { whole_c = 0, real_c = 1, imag_c = 2};
template <typename B, typename T> struct compio
{
  static T get(B b, int) { return T(b);}
  template <typename Ref> static void set(Ref &&b, T x, int) { b = B(x);}
};
// equal, a NaN being equal to a NaN
template <typename T> inline bool same(T a, T b) { return a == b || (a != a && b != b);}
template <typename B> struct compio<std::complex<B>, B>
{
  static B get(std::complex<B> b, int c) { return c == imag_c ? b.imag() : b.real();}
  static void set(std::complex<B> &b, B x, int c)
  { b = c == imag_c ? std::complex<B>(b.real(), x) : std::complex<B>(x, b.imag());}
};

// what a check sees of an item, independent of the view's type
template <typename T, int D> struct Erased
{
  std::string what; Sel<D> s;
  virtual ~Erased() {}
  virtual void guards(Rng &r) = 0;              // random values everywhere in the parent
  virtual void setup(std::vector<T> const &x) = 0;      // give the view values, by way of the parent
  virtual std::string verify(std::vector<T> const &want) = 0;
  virtual std::string verify_tol(std::vector<T> const &want, double tol) = 0;
  virtual std::vector<T> values() const = 0;    // what the view should say
  virtual std::vector<T> read() = 0;            // what the view says now
};
template <typename BT, typename T, int D> struct ItemBase : Erased<T, D>
{
  int comp;
  std::vector<BT> snap;
  using Erased<T, D>::s;
  virtual std::vector<BT> readbase() = 0;
  virtual void writebase(std::vector<BT> const &) = 0;
  virtual std::string badsize() = 0;
  void snapshot() { snap = readbase();}
  void setup(std::vector<T> const &x)
  {
    for (size_t i = 0; i < x.size(); ++i) compio<BT, T>::set(snap[s.idx[i]], x[i], comp);
    writebase(snap);
  }
  void guards(Rng &r)
  { for (auto &&b : snap) b = gen<BT>::small(r); writebase(snap);}
  std::vector<T> values() const
  {
    std::vector<T> x; x.reserve(s.idx.size());
    for (long i : s.idx) x.push_back(compio<BT, T>::get(snap[i], comp));
    return x;
  }
  // the parent must equal the snapshot with v's elements replaced by 'want';
  // returns "" or a description of the first difference
  std::string verify(std::vector<T> const &want)
  {
    std::vector<BT> exp = snap;
    for (size_t i = 0; i < want.size(); ++i) compio<BT, T>::set(exp[s.idx[i]], want[i], comp);
    std::string z = badsize(); if (!z.empty()) return z;
    std::vector<T> r = this->read();
    for (long l = 0; l < s.total(); ++l)
      if (!same(T(r[l]), T(want[l]))) return str("view element #", l, " = ", r[l], " expected ", want[l]);
    std::vector<BT> got = readbase();
    for (size_t i = 0; i < got.size(); ++i)
      if (!same(BT(got[i]), BT(exp[i]))) return str("parent element #", i, " = ", got[i], " expected ", exp[i]);
    snap = exp;
    return "";
  }
  // as verify, with a tolerance
  std::string verify_tol(std::vector<T> const &want, double tol)
  {
    std::vector<T> r = this->read();
    for (long l = 0; l < s.total(); ++l)
      if (!(absdiff(T(r[l]), T(want[l])) <= tol)) return str("view element #", l, " = ", r[l], " expected ", want[l], " tol ", tol);
    return verify(r);
  }
};
template <typename Base, typename View> struct Item : ItemBase<typename Base::value_type, typename View::value_type, int(View::dim)>
{
  typedef Base base_type; typedef View view_type;
  typedef typename Base::value_type BT;
  typedef typename View::value_type T;
  static int const dim = int(View::dim);
  Base base; View v;
  Item(Base b, View w, Sel<int(View::dim)> const &sel, int c, std::string const &wh) : base(b), v(w)
  { this->s = sel; this->comp = c; this->what = wh; this->snapshot();}
  std::vector<BT> readbase() { return readall(base);}
  void writebase(std::vector<BT> const &x) { writeall(base, x);}
  std::vector<T> read() { return readall(v);}
  std::string badsize()
  {
    long n[3]; sizes(v, n);
    for (int d = 0; d < dim; ++d)
      if (n[d] != this->s.n[d]) return str("size(", d, ")=", n[d], " expected ", this->s.n[d]);
    return "";
  }
};
template <typename Base, typename View>
Item<Base, View> item(Base b, View v, Sel<int(View::dim)> const &s, std::string const &w, int c = whole_c)
{ return Item<Base, View>(b, v, s, c, w);}

// ---- the zoo: views of a requested shape over many storage forms ----------
typedef vsip::tuple<0,1,2> T012; typedef vsip::tuple<0,2,1> T021; typedef vsip::tuple<1,0,2> T102;
typedef vsip::tuple<1,2,0> T120; typedef vsip::tuple<2,0,1> T201; typedef vsip::tuple<2,1,0> T210;
template <vsip::dimension_type D, typename T, typename O, vsip::pack_type P, vsip::storage_format_type S>
struct SB { typedef ovxx::Strided<D, T, vsip::Layout<D, O, P, is_cplx<T>::value ? S : vsip::array>, vsip::Local_map> type;};

template <typename B> void guard_fill(Rng &r, B base)
{
  long n[3]; sizes(base, n);
  for (long l = 0, t = n[0] * n[1] * n[2]; l < t; ++l) vput(base, n, l, gen<typename B::value_type>::small(r));
}

template <int K> struct kint {};
#ifndef VT_SPLIT8
#define VT_SPLIT8 dense                        // packing of the row-major split matrix
#endif
// 1-D ---------------------------------------------------------------
template <typename T> struct Zoo1
{
  static int const count = 10;
  static auto make(kint<0>, Rng &, long n)
  { vsip::Vector<T> b(n, T()); return item(b, b, Sel<1>::all(n), "vector");}
  static auto make(kint<1>, Rng &r, long n)
  {
    long st = r.range(1, 3), off = r.range(0, 3), tail = r.range(0, 3);
    long N = off + (n - 1) * st + 1 + tail;
    Domain<1> d = r.coin() ? Domain<1>(off, st, n) : Domain<1>(off + (n - 1) * st, -st, n);
    vsip::Vector<T> b(N, T()); guard_fill(r, b);
    return item(b, b(d), sub(Sel<1>::all(N), d), "vector(" + sdom(d) + ")");
  }
  static auto make(kint<2>, Rng &r, long n)
  {
    long R = r.range(1, 4), i = r.range(0, R - 1);
    vsip::Matrix<T> b(R, n, T()); guard_fill(r, b);
    return item(b, b.row(i), srow(Sel<2>::all(R, n), i), str("row ", i, " of row-major ", R, "x", n));
  }
  static auto make(kint<3>, Rng &r, long n)
  {
    long C = r.range(1, 4), i = r.range(0, C - 1);
    vsip::Matrix<T> b(n, C, T()); guard_fill(r, b);
    return item(b, b.col(i), scol(Sel<2>::all(n, C), i), str("col ", i, " of row-major ", n, "x", C));
  }
  static auto make(kint<4>, Rng &r, long n)
  {
    long R = n + r.range(0, 2), C = R == n ? n + r.range(0, 2) : n;
    long k = R == n ? r.range(0, C - n) : -r.range(0, R - n);
    vsip::Matrix<T, vsip::Dense<2, T, vsip::col2_type>> b(R, C, T()); guard_fill(r, b);
    Sel<1> s = sdiag(Sel<2>::all(R, C), k);
    return item(b, b.diag(k), s, str("diag ", k, " of col-major ", R, "x", C));
  }
  static auto make(kint<5>, Rng &r, long n)
  {
    typedef typename SB<1, T, T012, vsip::dense, vsip::split_complex>::type B;
    vsip::Vector<T, B> b(n, T());
    return item(b, b, Sel<1>::all(n), "split vector");
  }
  static auto make(kint<6>, Rng &r, long n)
  {
    typedef typename SB<1, T, T012, vsip::aligned_16, vsip::interleaved_complex>::type B;
    long N = 2 * n + r.range(0, 2), st = r.range(1, 2);
    vsip::Vector<T, B> b(N, T()); guard_fill(r, b);
    Domain<1> d(r.range(0, N - 1 - (n - 1) * st), st, n);
    return item(b, b(d), sub(Sel<1>::all(N), d), "interleaved(" + sdom(d) + ")");
  }
  static auto make(kint<7>, Rng &r, long n)
  {
    long A = r.range(1, 3), C = r.range(1, 3), i = r.range(0, A - 1), k = r.range(0, C - 1);
    vsip::Tensor<T> b(A, n, C, T()); guard_fill(r, b);
    return item(b, b(i, vsip::whole_domain, k), fibre(Sel<3>::all(A, n, C), 1, i, k), str("fibre of tensor ", A, "x", n, "x", C));
  }
  static auto make(kint<8>, Rng &r, long n) { return cpart(r, n, typename std::is_floating_point<T>::type(), real_c);}
  static auto make(kint<9>, Rng &r, long n) { return split_part(r, n, typename std::is_floating_point<T>::type());}
  static auto cpart(Rng &r, long n, std::true_type, int)
  {
    typedef std::complex<T> C;
    long st = r.range(1, 2); long N = (n - 1) * st + 1 + r.range(0, 2);
    vsip::Vector<C> b(N, C()); guard_fill(r, b);
    Domain<1> d(r.range(0, N - 1 - (n - 1) * st), st, n);
    auto sv = b(d);
    return item(b, sv.imag(), sub(Sel<1>::all(N), d), "imag part(" + sdom(d) + ")", imag_c);
  }
  static auto cpart(Rng &r, long n, std::false_type, int) { return make(kint<1>(), r, n);}
  static auto split_part(Rng &r, long n, std::true_type)
  {
    typedef std::complex<T> C;
    typedef typename SB<1, C, T012, vsip::dense, vsip::split_complex>::type B;
    vsip::Vector<C, B> b(n, C()); guard_fill(r, b);
    return item(b, b.real(), Sel<1>::all(n), "real part of split", real_c);
  }
  static auto split_part(Rng &r, long n, std::false_type)
  {
    typedef typename SB<1, T, T012, vsip::dense, vsip::split_complex>::type B;
    long st = r.range(1, 3); long N = (n - 1) * st + 1 + r.range(0, 2);
    vsip::Vector<T, B> b(N, T()); guard_fill(r, b);
    long f = r.range(0, N - 1 - (n - 1) * st);
    Domain<1> d = r.coin() ? Domain<1>(f, st, n) : Domain<1>(f + (n - 1) * st, -st, n);
    return item(b, b(d), sub(Sel<1>::all(N), d), "split(" + sdom(d) + ")");
  }
};
// 2-D ---------------------------------------------------------------
inline Domain<1> fitdom(Rng &r, long n, long &N, bool neg = true)
{
  long st = r.range(1, 3), off = r.range(0, 2);
  N = off + (n - 1) * st + 1 + r.range(0, 2);
  return neg && r.coin(1, 3) ? Domain<1>(off + (n - 1) * st, -st, n) : Domain<1>(off, st, n);
}
template <typename T> struct Zoo2
{
  static int const count = 12;
  template <typename B> static vsip::Matrix<T, B> fresh(Rng &r, long a, long b)
  { vsip::Matrix<T, B> m(a, b, T()); guard_fill(r, m); return m;}
  typedef vsip::Dense<2, T, vsip::row2_type> R; typedef vsip::Dense<2, T, vsip::col2_type> C;
  static auto make(kint<0>, Rng &r, long m, long n)
  { auto b = fresh<R>(r, m, n); return item(b, b, Sel<2>::all(m, n), "row-major");}
  static auto make(kint<1>, Rng &r, long m, long n)
  { auto b = fresh<C>(r, m, n); return item(b, b, Sel<2>::all(m, n), "col-major");}
  static auto make(kint<2>, Rng &r, long m, long n)
  {
    long M, N; Domain<1> a = fitdom(r, m, M), c = fitdom(r, n, N); auto b = fresh<R>(r, M, N);
    return item(b, b(Domain<2>(a, c)), sub(Sel<2>::all(M, N), a, c), "row-major(" + sdom(a) + "," + sdom(c) + ")");
  }
  static auto make(kint<3>, Rng &r, long m, long n)
  {
    long M, N; Domain<1> a = fitdom(r, m, M), c = fitdom(r, n, N); auto b = fresh<C>(r, M, N);
    return item(b, b(Domain<2>(a, c)), sub(Sel<2>::all(M, N), a, c), "col-major(" + sdom(a) + "," + sdom(c) + ")");
  }
  static auto make(kint<4>, Rng &r, long m, long n)
  { auto b = fresh<R>(r, n, m); return item(b, b.transpose(), trans(Sel<2>::all(n, m)), "transpose of row-major");}
  static auto make(kint<5>, Rng &r, long m, long n)
  {
    typedef typename SB<2, T, vsip::row2_type, vsip::aligned_32, vsip::array>::type B;
    auto b = fresh<B>(r, m, n); return item(b, b, Sel<2>::all(m, n), "row-major aligned");
  }
  static auto make(kint<6>, Rng &r, long m, long n)
  {
    typedef typename SB<2, T, vsip::col2_type, vsip::aligned_16, vsip::interleaved_complex>::type B;
    auto b = fresh<B>(r, m, n); return item(b, b, Sel<2>::all(m, n), "col-major aligned interleaved");
  }
  static auto make(kint<7>, Rng &r, long m, long n)
  {
    long A = r.range(1, 3), i = r.range(0, A - 1);
    vsip::Tensor<T> b(m, A, n, T()); guard_fill(r, b);
    return item(b, b(vsip::whole_domain, i, vsip::whole_domain), slice(Sel<3>::all(m, A, n), 1, i), "tensor slice 1");
  }
  static auto make(kint<8>, Rng &r, long m, long n)
  {
    typedef typename SB<2, T, vsip::row2_type, vsip::VT_SPLIT8, vsip::split_complex>::type B;
    auto b = fresh<B>(r, m, n); return item(b, b, Sel<2>::all(m, n), "row-major split");
  }
  static auto make(kint<9>, Rng &r, long m, long n)
  {
    typedef typename SB<2, T, vsip::col2_type, vsip::dense, vsip::split_complex>::type B;
    long M, N; Domain<1> a = fitdom(r, m, M), c = fitdom(r, n, N); auto b = fresh<B>(r, M, N);
    return item(b, b(Domain<2>(a, c)), sub(Sel<2>::all(M, N), a, c), "col-major split(" + sdom(a) + "," + sdom(c) + ")");
  }
  static auto make(kint<10>, Rng &r, long m, long n) { return part(r, m, n, typename std::is_floating_point<T>::type());}
  static auto make(kint<11>, Rng &r, long m, long n)
  {
    long A = r.range(1, 3), i = r.range(0, A - 1);
    vsip::Tensor<T, vsip::Dense<3, T, T120>> b(m, n, A, T()); guard_fill(r, b);
    return item(b, b(vsip::whole_domain, vsip::whole_domain, i), slice(Sel<3>::all(m, n, A), 2, i), "slice 2 of 1,2,0 tensor");
  }
  static auto part(Rng &r, long m, long n, std::true_type)
  {
    typedef std::complex<T> X;
    vsip::Matrix<X, vsip::Dense<2, X, vsip::col2_type>> b(m, n, X()); guard_fill(r, b);
    return item(b, b.real(), Sel<2>::all(m, n), "real part of col-major", real_c);
  }
  static auto part(Rng &r, long m, long n, std::false_type)
  { auto b = fresh<C>(r, n, m); return item(b, b.transpose(), trans(Sel<2>::all(n, m)), "transpose of col-major");}
};
// 3-D ---------------------------------------------------------------
template <typename T> struct Zoo3
{
  static int const count = 8;
  template <typename B> static vsip::Tensor<T, B> fresh(Rng &r, long a, long b, long c)
  { vsip::Tensor<T, B> m(a, b, c, T()); guard_fill(r, m); return m;}
  static auto make(kint<0>, Rng &r, long a, long b, long c)
  { auto x = fresh<vsip::Dense<3, T, T012>>(r, a, b, c); return item(x, x, Sel<3>::all(a, b, c), "tensor 012");}
  static auto make(kint<1>, Rng &r, long a, long b, long c)
  { auto x = fresh<vsip::Dense<3, T, T210>>(r, a, b, c); return item(x, x, Sel<3>::all(a, b, c), "tensor 210");}
  static auto make(kint<2>, Rng &r, long a, long b, long c)
  { auto x = fresh<vsip::Dense<3, T, T102>>(r, a, b, c); return item(x, x, Sel<3>::all(a, b, c), "tensor 102");}
  static auto make(kint<3>, Rng &r, long a, long b, long c)
  {
    long A, B, C; Domain<1> da = fitdom(r, a, A), db = fitdom(r, b, B), dc = fitdom(r, c, C);
    auto x = fresh<vsip::Dense<3, T, T012>>(r, A, B, C);
    return item(x, x(Domain<3>(da, db, dc)), sub(Sel<3>::all(A, B, C), da, db, dc),
                "tensor 012(" + sdom(da) + "," + sdom(db) + "," + sdom(dc) + ")");
  }
  static auto make(kint<4>, Rng &r, long a, long b, long c)
  {
    // result dims (a,b,c) = parent dims 2,0,1
    auto x = fresh<vsip::Dense<3, T, T012>>(r, b, c, a);
    return item(x, x.template transpose<2, 0, 1>(), permute(Sel<3>::all(b, c, a), 2, 0, 1), "transpose<2,0,1>");
  }
  static auto make(kint<5>, Rng &r, long a, long b, long c)
  {
    typedef typename SB<3, T, T012, vsip::aligned_16, vsip::interleaved_complex>::type B;
    auto x = fresh<B>(r, a, b, c); return item(x, x, Sel<3>::all(a, b, c), "tensor 012 aligned interleaved");
  }
  static auto make(kint<6>, Rng &r, long a, long b, long c)
  {
    typedef typename SB<3, T, T201, vsip::VT_SPLIT8, vsip::split_complex>::type B;
    auto x = fresh<B>(r, a, b, c); return item(x, x, Sel<3>::all(a, b, c), "tensor 201 split");
  }
  static auto make(kint<7>, Rng &r, long a, long b, long c)
  {
    typedef typename SB<3, T, T021, vsip::dense, vsip::array>::type B;
    long A, N, C; Domain<1> da = fitdom(r, a, A), db = fitdom(r, b, N), dc = fitdom(r, c, C);
    auto x = fresh<B>(r, A, N, C);
    return item(x, x(Domain<3>(da, db, dc)), sub(Sel<3>::all(A, N, C), da, db, dc),
                "tensor 021(" + sdom(da) + "," + sdom(db) + "," + sdom(dc) + ")");
  }
  static auto make(kint<8>, Rng &r, long a, long b, long c)
  { auto x = fresh<vsip::Dense<3, T, T120>>(r, a, b, c); return item(x, x, Sel<3>::all(a, b, c), "tensor 120");}
};
template <int D, typename T> struct ZooD;
template <typename T> struct ZooD<1, T> : Zoo1<T>
{ template <int K> static auto mk(Rng &r, long const *n) { return Zoo1<T>::make(kint<K>(), r, n[0]);} };
template <typename T> struct ZooD<2, T> : Zoo2<T>
{ template <int K> static auto mk(Rng &r, long const *n) { return Zoo2<T>::make(kint<K>(), r, n[0], n[1]);} };
template <typename T> struct ZooD<3, T> : Zoo3<T>
{ template <int K> static auto mk(Rng &r, long const *n) { return Zoo3<T>::make(kint<K>(), r, n[0], n[1], n[2]);} };

template <typename T> std::vector<T> rvals(Rng &r, long n, long lo = -9, long hi = 9)
{ std::vector<T> v; v.reserve(n); for (long i = 0; i < n; ++i) v.push_back(gen<T>::small(r, lo, hi)); return v;}
template <typename T> std::vector<T> rreal(Rng &r, long n, double m = 1)
{ std::vector<T> v; v.reserve(n); for (long i = 0; i < n; ++i) v.push_back(gen<T>::real(r, m)); return v;}

// vector shapes that cross the library's size thresholds now and then
inline void rshape(Rng &r, int D, long *n, long cap = 9)
{
  n[0] = n[1] = n[2] = 1;
  for (int d = 0; d < D; ++d) n[d] = r.coin(1, 8) ? 1 : r.range(1, cap);
  if (D == 1 && r.coin(1, 5)) n[0] = r.range(10, 300);
  if (D == 2 && r.coin(1, 8)) { n[0] = r.range(10, 40); n[1] = r.range(10, 40);}
}
inline std::string sshape(int D, long const *n)
{ return D == 1 ? str(n[0]) : D == 2 ? str(n[0], "x", n[1]) : str(n[0], "x", n[1], "x", n[2]);}

template <typename I> I &erase(I &i) { return i;}
template <typename I> typename std::enable_if<!std::is_lvalue_reference<I>::value, I>::type erase(I &&i) { return std::move(i);}

// call f(kint<K>()) for K in [lo,hi)
template <int K, int hi> struct for_kinds
{ template <typename F> static void go(F &f) { f(kint<K>()); for_kinds<K + 1, hi>::go(f);} };
template <int hi> struct for_kinds<hi, hi> { template <typename F> static void go(F &) {} };
} // namespace vt
#endif
