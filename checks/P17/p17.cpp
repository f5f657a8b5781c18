// P17: selection and generation functions against lists of elements.
#include "model.hpp"
#include <vsip/selgen.hpp>
#include "main.hpp"
using namespace vt;
typedef P_T T;
static Ctx *C;
typedef typename scalar<T>::type S;
template <int D> vsip::Index<D> mkindex(long const *n, long l);
template <> vsip::Index<1> mkindex<1>(long const *, long l) { return vsip::Index<1>(l);}
template <> vsip::Index<2> mkindex<2>(long const *n, long l) { return vsip::Index<2>(l / n[1], l % n[1]);}
template <> vsip::Index<3> mkindex<3>(long const *n, long l) { return vsip::Index<3>(l / (n[1] * n[2]), l / n[2] % n[1], l % n[2]);}
template <int D> bool sameix(vsip::Index<D> const &a, vsip::Index<D> const &b)
{ for (int d = 0; d < D; ++d) if (a[d] != b[d]) return false; return true;}
// a vector of indices over several storage forms; elements around it are kept
template <int D> struct IxVec
{
  typedef vsip::Vector<vsip::Index<D> > full; typedef typename full::subview_type sub_t;
  long N; vsip::Domain<1> dom; full base; std::vector<vsip::Index<D> > snap;
  static vsip::Domain<1> mkdom(Rng &r, long n, long &N)
  {
    long st = r.range(1, 3), off = r.range(0, 3); N = off + (n - 1) * st + 1 + r.range(0, 3); if (n == 0) N = off + 1;
    return r.coin() || n == 0 ? vsip::Domain<1>(off, st, n) : vsip::Domain<1>(off + (n - 1) * st, -st, n);
  }
  IxVec(Rng &r, long n) : dom(mkdom(r, n, N)), base(N)
  {
    for (long i = 0; i < N; ++i)
    { long m[3] = {1000, 1000, 1000}; base.put(i, mkindex<D>(m, 700000 + r.range(0, 99999)));}
    keep();
  }
  void keep() { snap.clear(); for (long i = 0; i < N; ++i) snap.push_back(base.get(i));}
  long at(long k) const { return long(dom.first()) + k * long(dom.stride());}
  std::string verify()
  { for (long i = 0; i < N; ++i) if (!sameix<D>(snap[i], base.get(i))) return str("index element ", i, " of ", N, " is not as expected"); return "";}
};
template <typename U> struct boolish { static bool is(U v) { return bool(v);} };
template <typename U> struct boolish<std::complex<U> > { static bool is(std::complex<U> v) { return v != std::complex<U>();} };

// ---- indexbool (1-D and 2-D, real element types) --------------------------
template <int D, typename CV> struct ib
{
  template <typename It> static void go(It &in, long const *n, std::true_type)
  {
    Rng &r = C->rng; long total = n[0] * n[1] * n[2];
    std::vector<T> x; std::vector<long> hits;
    int dens = int(r.range(0, 4));
    for (long i = 0; i < total; ++i)
    { bool on = dens == 0 ? false : dens == 1 ? true : r.coin(1, dens); x.push_back(on ? (r.coin() ? T(1) : gen<T>::small(r, 1, 9)) : T(0)); if (boolish<T>::is(x.back())) hits.push_back(i);}
    in.guards(r); in.setup(x);
    long cap = r.coin() ? long(hits.size()) : r.coin() ? total : r.range(0, total);
    IxVec<D> ix(r, std::max(1L, cap)); cap = std::max(1L, cap);
    C->begin(str("indexbool ", D, "d ", tname<T>::get(), " ", sshape(D, n), " ", in.what, " room ", cap, " true ", hits.size()));
    CV src(in.v.block());
    typename IxVec<D>::sub_t iv = ix.base(ix.dom);
    long got = long(vsip::indexbool(src, iv));
    std::string key = str("indexbool", D, "d:", tname<T>::get());
    if (got != long(hits.size())) { C->fail(key + ":count", str("returned ", got, " for ", hits.size(), " true elements")); return;}
    for (long k = 0; k < std::min(cap, got); ++k) ix.snap[ix.at(k)] = mkindex<D>(n, hits[k]);
    std::string q = ix.verify(); if (!q.empty()) { C->fail(key + ":indices", q); return;}
    q = in.verify(x); if (!q.empty()) { C->fail(key + ":source-changed", q); return;}
    C->ok(C->label, total);
  }
  template <typename It> static void go(It &, long const *, std::false_type) {}
};
template <int D, int K, typename Enable = void> struct indexbool_case { static void go() {} };
template <int D> void shape(long *n) { n[0] = n[1] = n[2] = 1; rshape(C->rng, D, n, D == 1 ? 40 : D == 2 ? 9 : 6);}

template <int D, int K> void do_indexbool(std::false_type) {}
template <int D, int K> __attribute__((noinline)) void do_indexbool(std::true_type)
{
  long n[3]; shape<D>(n);
  auto in = ZooD<D, T>::template mk<K>(C->rng, n);
  typedef typename std::decay<decltype(in.v)>::type V; typedef typename V::block_type B;
  typedef typename std::conditional<D == 1, vsip::const_Vector<T, B>, vsip::const_Matrix<T, B> >::type CV;
  ib<D, CV>::go(in, n, std::integral_constant<bool, !is_cplx<T>::value>());
}

// ---- gather and scatter ---------------------------------------------------
template <int D, typename V> struct cview;
template <typename V> struct cview<1, V> { typedef vsip::const_Vector<T, typename V::block_type> type;};
template <typename V> struct cview<2, V> { typedef vsip::const_Matrix<T, typename V::block_type> type;};
template <typename V> struct cview<3, V> { typedef vsip::const_Tensor<T, typename V::block_type> type;};
template <int D, int K> __attribute__((noinline)) void gather_scatter()
{
  Rng &r = C->rng; long n[3]; shape<D>(n); long total = n[0] * n[1] * n[2];
  auto in = ZooD<D, T>::template mk<K>(r, n);
  typedef typename std::decay<decltype(in.v)>::type V;
  std::vector<T> x = rvals<T>(r, total);
  in.guards(r); in.setup(x);
  long k = r.range(1, r.coin() ? total : 2 * total);
  IxVec<D> ix(r, k); std::vector<long> at;
  for (long i = 0; i < k; ++i) { at.push_back(r.range(0, total - 1)); ix.base.put(ix.at(i), mkindex<D>(n, at[i]));}
  ix.keep();
  typename IxVec<D>::sub_t iv = ix.base(ix.dom);
  typedef typename IxVec<D>::sub_t::block_type IB;
  vsip::const_Vector<vsip::Index<D>, IB> civ(iv.block());
  {
    C->begin(str("gather ", D, "d ", tname<T>::get(), " ", sshape(D, n), " ", in.what, " ", k, " indices"));
    typename cview<D, V>::type src(in.v.block());
    std::string key = str("gather", D, "d:", tname<T>::get());
    auto g = vsip::gather(src, civ);
    if (long(g.size()) != k) { C->fail(key + ":size", str(g.size(), " for ", k)); return;}
    for (long i = 0; i < k; ++i) if (!same(T(g.get(i)), x[at[i]])) { C->fail(key, str("element ", i, " = ", g.get(i), " expected ", x[at[i]])); return;}
    std::string q = in.verify(x); if (!q.empty()) { C->fail(key + ":source-changed", q); return;}
    q = ix.verify(); if (!q.empty()) { C->fail(key + ":indices-changed", q); return;}
    C->ok(C->label, k);
  }
  {
    // a destination given twice keeps one of its values: use distinct indices, or equal values
    C->begin(str("scatter ", D, "d ", tname<T>::get(), " ", sshape(D, n), " ", in.what, " ", k, " indices"));
    std::string key = str("scatter", D, "d:", tname<T>::get());
    std::vector<T> v = rvals<T>(r, k), want = x; std::vector<long> firstat(total, -1);
    for (long i = 0; i < k; ++i) { if (firstat[at[i]] >= 0) v[i] = v[firstat[at[i]]]; else firstat[at[i]] = i; want[at[i]] = v[i];}
    long extra = r.coin() ? 0 : 0; long m[3] = {k + extra, 1, 1};
    auto src = Zoo1<T>::make(kint<(K * 3 + D) % 10>(), r, m[0]);
    src.guards(r); src.setup(v);
    vsip::const_Vector<T, typename std::decay<decltype(src.v)>::type::block_type> cs(src.v.block());
    vsip::scatter(cs, civ, in.v);
    std::string q = in.verify(want); if (!q.empty()) { C->fail(key, q); return;}
    q = src.verify(v); if (!q.empty()) { C->fail(key + ":source-changed", q); return;}
    q = ix.verify(); if (!q.empty()) { C->fail(key + ":indices-changed", q); return;}
    C->ok(C->label, k);
  }
}

// ---- clip, invclip --------------------------------------------------------
template <int D, int K, typename T> __attribute__((noinline)) void clipping_(std::true_type)
{
  Rng &r = C->rng; long n[3]; shape<D>(n); long total = n[0] * n[1] * n[2];
  auto in = ZooD<D, T>::template mk<K>(r, n);
  std::vector<T> x = std::is_integral<T>::value || r.coin() ? rvals<T>(r, total) : rreal<T>(r, total, 9);
  in.guards(r); in.setup(x);
  T a = r.coin(1, 3) ? x[r.range(0, total - 1)] : gen<T>::small(r), b = r.coin(1, 3) ? x[r.range(0, total - 1)] : gen<T>::small(r), c = gen<T>::small(r);
  if (b < a) std::swap(a, b); if (c < b) std::swap(b, c); if (b < a) std::swap(a, b);
  T lo = gen<T>::small(r), hi = gen<T>::small(r);
  std::string what = str(D, "d ", tname<T>::get(), " ", sshape(D, n), " ", in.what);
  auto out = ZooD<D, T>::template mk<0>(r, n);
  out.guards(r); out.snapshot();
  std::vector<T> want;
  {
    C->begin(str("clip ", what, " limits ", a, " ", c, " values ", lo, " ", hi));
    for (T v : x) want.push_back(v <= a ? lo : v < c ? v : hi);
    out.v = vsip::clip(in.v, a, c, lo, hi);
    std::string q = out.verify(want); if (!q.empty()) { C->fail(str("clip", D, "d:", tname<T>::get()), q); return;}
    q = in.verify(x); if (!q.empty()) { C->fail(str("clip", D, "d:source-changed"), q); return;}
    C->ok(C->label, total);
  }
  {
    C->begin(str("invclip ", what, " limits ", a, " ", b, " ", c, " values ", lo, " ", hi));
    want.clear(); for (T v : x) want.push_back(v < a ? v : v < b ? lo : v <= c ? hi : v);
    if (r.coin())      // in place
    { in.v = vsip::invclip(in.v, a, b, c, lo, hi); std::string q = in.verify(want); if (!q.empty()) { C->fail(str("invclip-in-place", D, "d:", tname<T>::get()), q); return;}}
    else
    { out.v = vsip::invclip(in.v, a, b, c, lo, hi); std::string q = out.verify(want); if (!q.empty()) { C->fail(str("invclip", D, "d:", tname<T>::get()), q); return;}}
    C->ok(C->label, total);
  }
}
template <int D, int K, typename T> void clipping_(std::false_type) {}

// ---- first ----------------------------------------------------------------
struct Pred { int op; long *calls; bool operator()(T a, T b) const { ++*calls; return op == 0 ? a == b : op == 1 ? !(a == b) : op == 2 ? a == T(3) : op == 3 ? false : true;} };
template <int K> __attribute__((noinline)) void first_case()
{
  Rng &r = C->rng; long n = r.range(1, 40);
  auto a = Zoo1<T>::make(kint<K>(), r, n); auto b = Zoo1<T>::make(kint<(K + 4) % 10>(), r, n);
  std::vector<T> x = rvals<T>(r, n), y = rvals<T>(r, n);
  int sim = int(r.range(0, 2)); for (long i = 0; i < n; ++i) if (sim == 0 ? r.coin(1, 6) : sim == 1 ? !r.coin(1, 8) : true) y[i] = x[i];
  if (sim == 2 && n > 1) y[r.range(0, n - 1)] = T(77);
  a.guards(r); a.setup(x); b.guards(r); b.setup(y);
  long calls = 0; Pred p; p.op = int(r.range(0, 4)); p.calls = &calls;
  for (int t = 0; t < 4; ++t)
  {
    long begin = r.coin(1, 5) ? n : r.coin(1, 6) ? n + r.range(1, 3) : r.range(0, n - 1);
    C->begin(str("first ", tname<T>::get(), " ", n, " from ", begin, " predicate ", p.op, " ", a.what, " ", b.what, " values ", sim));
    calls = 0;
    long want = begin; if (begin <= n) while (want < n && !Pred(p)(x[want], y[want])) ++want;
    calls = 0;
    long got = long(vsip::first(begin, p, a.v, b.v));
    if (got != want) { C->fail(str("first:", tname<T>::get()), str("found ", got, " expected ", want)); return;}
    C->ok(C->label, calls + 1);
  }
  std::string q = a.verify(x) + b.verify(y); if (!q.empty()) C->fail("first:source-changed", q);
}

// ---- swap -----------------------------------------------------------------
template <int D, int K, int K2> __attribute__((noinline)) void swapping()
{
  Rng &r = C->rng; long n[3]; shape<D>(n); long total = n[0] * n[1] * n[2];
  auto a = ZooD<D, T>::template mk<K>(r, n); auto b = ZooD<D, T>::template mk<K2>(r, n);
  std::vector<T> x = rvals<T>(r, total), y = rvals<T>(r, total);
  a.guards(r); a.setup(x); b.guards(r); b.setup(y);
  C->begin(str("swap ", D, "d ", tname<T>::get(), " ", sshape(D, n), " ", a.what, " and ", b.what));
  vsip::swap(a.v, b.v);
  std::string q = a.verify(y); if (q.empty()) q = b.verify(x);
  if (!q.empty()) { C->fail(str("swap", D, "d:", tname<T>::get()), q); return;}
  C->ok(C->label, total);
}

// ---- ramp -----------------------------------------------------------------
template <int K> __attribute__((noinline)) void ramps()
{
  Rng &r = C->rng; long n = r.coin(1, 6) ? r.range(100, 3000) : r.range(1, 60); if (K == 0 && r.coin(1, 4)) n = r.range(3000, 70000);
  T a = gen<T>::small(r), b = gen<T>::small(r); if (r.coin(1, 3)) { a = gen<T>::real(r, 5); b = gen<T>::real(r, 5);}
  C->begin(str("ramp ", tname<T>::get(), " from ", a, " by ", b, " length ", n));
  std::string key = str("ramp:", tname<T>::get());
  auto v = vsip::ramp(a, b, n);
  if (long(v.size()) != n) { C->fail(key + ":size", str(v.size())); return;}
  double e = eps_of<T>::get() * 4;
  auto near = [&](T g, long i, char const *w) {
    T t = a + T(S(i)) * b; double tol = std::is_integral<T>::value ? 0 : e * (magd(a) + i * magd(b) + 1e-30);
    if (!(absdiff(g, t) <= tol)) { C->fail(key + ":" + w, str("element ", i, " = ", g, " expected ", t)); return false;}
    return true; };
  for (long i = 0; i < n; ++i) if (!near(v.get(i), i, "get")) return;
  auto out = Zoo1<T>::make(kint<K>(), r, n); out.guards(r); out.snapshot();
  out.v = v;
  std::vector<T> g = out.read(); for (long i = 0; i < n; ++i) if (!near(g[i], i, "assigned")) return;
  std::string q = out.verify(g); if (!q.empty()) { C->fail(key + ":around", q); return;}
  Domain<1> d = rdom(r, n); auto s = v(d);
  if (s.size() != d.size()) { C->fail(key + ":subview-size", str(s.size())); return;}
  for (long i = 0; i < long(d.size()); ++i) if (!near(s.get(i), long(d.first()) + i * long(d.stride()), "subview")) return;
  out.v = v - v; g = out.read(); for (long i = 0; i < n; ++i) if (g[i] != T()) { C->fail(key + ":expression", str("v-v = ", g[i])); return;}
  C->ok(C->label, n);
}
template <int LO, int HI> struct each { static void go(long n)
{
  typedef std::integral_constant<bool, !is_cplx<T>::value> real;
  for (long q = 0; q < n; ++q)
  {
    do_indexbool<1, LO % 10>(real()); do_indexbool<2, LO % 12>(real());
    gather_scatter<1, LO % 10>(); gather_scatter<2, (LO + 3) % 12>(); gather_scatter<3, LO % 8>();
    clipping_<1, LO % 10, T>(real()); clipping_<2, (LO + 5) % 12, T>(real()); clipping_<3, LO % 8, T>(real());
    first_case<LO % 10>(); ramps<LO % 10>();
    swapping<1, LO % 10, (LO * 3 + 1) % 10>(); swapping<2, LO % 12, (LO * 5 + 2) % 12>(); swapping<3, LO % 8, (LO * 3 + 2) % 8>();
  }
  each<LO + 1, HI>::go(n);
} };
template <int HI> struct each<HI, HI> { static void go(long) {} };
void vt_main(Ctx &c) { C = &c; each<0, 12>::go(c.n(P_REPS));}
