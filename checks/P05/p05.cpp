// P05: direct data access.
#include "model.hpp"
#include "main.hpp"
#include <vsip/dda.hpp>
#include <ovxx/dda/runtime.hpp>
#include <functional>
using namespace vt; using namespace vsip;
namespace
{
Ctx *C;
// what the accessor presents, without its type
template <typename T> struct Raw
{
  typedef typename scalar<T>::type S;
  int fmt = 0;                    // 1 array 2 interleaved 3 split
  T *a = 0; S *i = 0, *re = 0, *im = 0; bool ro = false;
  long st[3] = {0, 0, 0}, n[3] = {1, 1, 1};
  long size = -1, ssize = -1; int cost = 0, ct_cost = 0;
  static void join(std::complex<S> &v, S r, S m) { v = std::complex<S>(r, m);}
  static void join(S &v, S r, S) { v = r;}
  static S rp(std::complex<S> v) { return v.real();}  static S ip(std::complex<S> v) { return v.imag();}
  template <typename X> static X rp(X v) { return v;} template <typename X> static X ip(X) { return X();}
  T get(long k) const
  {
    T v; if (fmt == 1) return a[k];
    if (fmt == 2) join(v, i[2 * k], i[2 * k + 1]); else join(v, re[k], im[k]);
    return v;
  }
  void put(long k, T v)
  {
    if (fmt == 1) a[k] = v;
    else if (fmt == 2) { i[2 * k] = rp(v); i[2 * k + 1] = ip(v);}
    else { re[k] = rp(v); im[k] = ip(v);}
  }
  bool aligned(long k, unsigned al) const
  {
    if (fmt == 1) return uintptr_t(a + k) % al == 0;
    if (fmt == 2) return uintptr_t(i + 2 * k) % al == 0;
    return uintptr_t(re + k) % al == 0 && uintptr_t(im + k) % al == 0;
  }
  template <typename P> void set(P *p) { setp(p, std::integral_constant<bool, std::is_same<typename std::remove_const<P>::type, T>::value>());}
  template <typename P> void setp(P *p, std::true_type) { fmt = 1; a = const_cast<T *>(p);}
  template <typename P> void setp(P *p, std::false_type) { fmt = 2; i = const_cast<S *>(p);}
  template <typename P> void set(std::pair<P *, P *> p) { fmt = 3; re = const_cast<S *>(p.first); im = const_cast<S *>(p.second);}
  template <typename P> void setrt(P p)
  {
    if (p.format() == array) set(p.template as<array>());
    else if (p.format() == interleaved_complex) set(p.template as<interleaved_complex>());
    else if (p.format() == split_complex) set(p.template as<split_complex>());
  }
  void set(ovxx::pointer<std::complex<S>> p) { setrt(p);}
  void set(ovxx::const_pointer<std::complex<S>> p) { setrt(p);}
};
// the request
struct Req { int order[3]; int pack; int fmt; bool in, out, copy; std::string name; bool own, rt; };
inline char const *packname(int p)
{
  switch (p) { case any_packing: return "any"; case unit_stride: return "unit"; case dense: return "dense"; default: break;}
  static char b[16]; snprintf(b, 16, "al%d", p); return b;
}
template <typename T, int D> struct Phase
{
  Erased<T, D> &e; Req const &rq; std::vector<T> cur; std::string key; bool bad;
  std::function<void()> sync_in, sync_out;
  Phase(Erased<T, D> &e_, Req const &r) : e(e_), rq(r), bad(false)
  {
    e.guards(C->rng); cur = rvals<T>(C->rng, e.s.total()); e.setup(cur);
    key = str(rq.rt ? "rt:" : "", rq.name);
  }
  void fail(std::string const &k, std::string const &d) { bad = true; C->fail(k, C->label + ": " + d);}
  long off(Raw<T> const &w, long l) const
  {
    long const *n = e.s.n;
    if (D == 1) return l * w.st[0];
    if (D == 2) return (l / n[1]) * w.st[0] + (l % n[1]) * w.st[1];
    return (l / (n[1] * n[2])) * w.st[0] + (l / n[2] % n[1]) * w.st[1] + (l % n[2]) * w.st[2];
  }
  void expect(Raw<T> const &w, char const *when)
  {
    for (long l = 0; l < long(cur.size()); ++l)
      if (!(w.get(off(w, l)) == cur[l])) { fail("presented-values", str(when, ": element #", l, " = ", w.get(off(w, l)), " expected ", cur[l])); return;}
  }
  void layout(Raw<T> const &w)
  {
    long const *n = e.s.n; bool cx = is_cplx<T>::value;
    for (int d = 0; d < D; ++d) if (w.n[d] != n[d]) fail("reported-size", str("size(", d, ")=", w.n[d]));
    if (w.size >= 0 && w.size != e.s.total()) fail("reported-total-size", str("size()=", w.size));
    if (!rq.own)
    {
      if (cx && (rq.fmt == split_complex) != (w.fmt == 3)) fail("storage-format", str("got pointer format ", w.fmt));
      int last = rq.order[D - 1];
      if (rq.pack != any_packing && w.st[last] != 1) fail("unit-stride", str("stride(", last, ")=", w.st[last]));
      if (rq.pack == dense)
      {
        long s = 1;
        for (int k = D - 1; k >= 0; --k)
        {
          int d = rq.order[k];
          if (n[d] > 1 && w.st[d] != s) fail("dense", str("stride(", d, ")=", w.st[d], " expected ", s));
          s *= n[d];
        }
      }
      if (rq.pack > dense && rq.pack != aligned)
      {
        for (long l = 0; l < long(cur.size()); ++l)
        {
          long x[3] = {D == 1 ? l : D == 2 ? l / n[1] : l / (n[1] * n[2]), D == 2 ? l % n[1] : D == 3 ? l / n[2] % n[1] : 0, D == 3 ? l % n[2] : 0};
          if (x[last] == 0 && !w.aligned(off(w, l), rq.pack)) { fail("alignment", str("row start of element #", l, " is not aligned to ", rq.pack)); break;}
        }
      }
    }
    // no two elements at the same place, none beyond the reported storage
    std::set<long> seen; long mx = 0;
    for (long l = 0; l < long(cur.size()); ++l) { long o = off(w, l); seen.insert(o); mx = std::max(mx, o);}
    if (seen.size() != cur.size()) fail("overlap", "two elements share a location");
    if (w.cost != 0 && w.ssize >= 0 && mx >= w.ssize) fail("storage-size", str("element at ", mx, " storage_size() ", w.ssize));
  }
  void inside(Raw<T> &w)
  {
    layout(w); if (bad) return;
    if (rq.in) expect(w, "on entry");
    if (rq.in && !rq.copy)
    {
      // change the block, synchronise again
      cur = rvals<T>(C->rng, cur.size()); e.setup(cur);
      sync_in(); expect(w, "after sync_in");
    }
    if (rq.in && rq.copy)
    {
      if (w.cost == 0) fail("forced-copy", "a forced copy has cost 0");
      for (long l = 0; l < long(cur.size()); ++l) w.put(off(w, l), gen<T>::small(C->rng));
      if (!rq.out) { std::string m = e.verify(cur); if (!m.empty()) fail("forced-copy-wrote-block", m);}
      sync_in(); expect(w, "after sync_in");
    }
    if (rq.out)
    {
      std::vector<T> a = rvals<T>(C->rng, cur.size());
      for (long l = 0; l < long(cur.size()); ++l) if (!rq.in || C->rng.coin()) { w.put(off(w, l), a[l]); cur[l] = a[l];}
      if (C->rng.coin())
      {
        sync_out();
        std::string m = e.verify(cur); if (!m.empty()) fail("sync_out", m);
        for (long l = 0; l < long(cur.size()); ++l) if (C->rng.coin()) { T v = gen<T>::small(C->rng); w.put(off(w, l), v); cur[l] = v;}
      }
    }
  }
  void after(Raw<T> const &w)
  {
    if (bad) return;
    std::string m = e.verify(cur);
    if (!m.empty()) { fail(rq.out ? "output-not-stored" : "input-access-changed-block", m); return;}
    if (!bad) C->ok(str(tname<T>::get(), " ", e.what, " ", key, " cost", w.cost), 1 + long(cur.size()) / 8);
    C->count(w.cost ? "copied" : "direct");
  }
};
template <typename T, typename DT> void fill_raw(Raw<T> &w, DT &d, int D)
{
  w.set(d.ptr());
  for (int k = 0; k < D; ++k) { w.st[k] = d.stride(k); w.n[k] = d.size(k);}
  w.size = d.size(); w.ssize = d.storage_size(); w.cost = d.cost(); w.ct_cost = DT::ct_cost;
}
template <typename S> struct BufHold { std::vector<std::unique_ptr<S[]>> v; S *get(long n) { v.emplace_back(new S[n]); return v.back().get();} };
template <typename T, storage_format_type F> struct mkbuf { static T *of(BufHold<typename scalar<T>::type> &h, long n) { return reinterpret_cast<T *>(h.get(n * (sizeof(T) / sizeof(typename scalar<T>::type))));} };
template <typename S> struct mkbuf<std::complex<S>, interleaved_complex> { static S *of(BufHold<S> &h, long n) { return h.get(2 * n);} };
template <typename S> struct mkbuf<std::complex<S>, split_complex> { static std::pair<S *, S *> of(BufHold<S> &h, long n) { S *a = h.get(n), *b = h.get(n); return std::make_pair(a, b);} };

template <typename O, pack_type P, storage_format_type F, dda::sync_policy S, int D> Req mkreq(bool own)
{
  Req r; r.order[0] = O::impl_dim0; r.order[1] = O::impl_dim1; r.order[2] = O::impl_dim2;
  r.pack = P; r.fmt = F; r.in = S & dda::in; r.out = S & dda::out; r.copy = S & dda::copy; r.own = own; r.rt = false;
  r.name = str(r.in ? "in" : "", r.out ? "out" : "", r.copy ? "copy" : "", " ", own ? "own" : str(r.order[0], r.order[1], r.order[2], packname(P), F == split_complex ? "s" : F == interleaved_complex ? "i" : "a"));
  return r;
}
template <typename O, pack_type P, storage_format_type F, dda::sync_policy S, typename I> void access(I &it)
{
  typedef typename I::view_type V; typedef typename V::block_type B; typedef typename I::T T; int const D = I::dim;
  typedef Layout<D, O, P, is_cplx<T>::value ? F : array> L;
  Req rq = mkreq<O, P, L::storage_format, S, D>(false);
  Erased<T, D> &e = it;
  C->begin(str(tname<T>::get(), " ", it.what, " [", sshape(D, it.s.n), "] ", rq.name));
  Phase<T, D> ph(e, rq); Raw<T> w;
  BufHold<typename scalar<T>::type> hold;
  {
    typedef dda::Data<B, S, L> DT;
    long need = ovxx::dda::Accessor<B, L, S>::required_buffer_size(it.v.block());
    bool buf = need && C->rng.coin(1, 3) && P <= dense;
    DT *d = buf ? new DT(it.v.block(), mkbuf<T, L::storage_format>::of(hold, need)) : new DT(it.v.block());
    fill_raw(w, *d, D);
    ph.sync_in = [d]() { d->sync_in();}; ph.sync_out = [d]() { d->sync_out();};
    ph.inside(w);
    delete d;
  }
  ph.after(w);
}
template <dda::sync_policy S, typename I> void own(I &it)
{
  typedef typename I::view_type V; typedef typename V::block_type B; typedef typename I::T T; int const D = I::dim;
  Req rq = mkreq<tuple<0,1,2>, any_packing, array, S, D>(true);
  Erased<T, D> &e = it;
  C->begin(str(tname<T>::get(), " ", it.what, " [", sshape(D, it.s.n), "] ", rq.name));
  Phase<T, D> ph(e, rq); Raw<T> w;
  {
    typedef dda::Data<B, S> DT; std::unique_ptr<DT> d(new DT(it.v.block()));
    DT *p = d.get(); fill_raw(w, *p, D);
    ph.sync_in = [p]() { p->sync_in();}; ph.sync_out = [p]() { p->sync_out();};
    ph.inside(w);
  }
  ph.after(w);
}
template <typename DT, typename T> void fill_rt(Raw<T> &w, DT &d, int D, int cost)
{
  w.set(d.ptr()); for (int k = 0; k < D; ++k) { w.st[k] = d.stride(k); w.n[k] = d.size(k);}
  w.cost = cost;
}
template <dda::sync_policy S, typename I> void runtime(I &it)
{
  typedef typename I::view_type V; typedef typename V::block_type B; typedef typename I::T T; int const D = I::dim;
  static int const perm[6][3] = {{0,1,2},{1,0,2},{0,2,1},{1,2,0},{2,0,1},{2,1,0}};
  int p = D == 1 ? 0 : D == 2 ? int(C->rng.range(0, 1)) : int(C->rng.range(0, 5));
  pack_type packs[] = {unit_stride, dense, aligned_16, aligned_32, any_packing};
  pack_type pk = packs[C->rng.range(0, 4)];
  storage_format_type fm = !is_cplx<T>::value ? array : C->rng.coin(1, 3) ? split_complex : C->rng.coin() ? interleaved_complex : array;
  Req rq; for (int k = 0; k < 3; ++k) rq.order[k] = perm[p][k];
  rq.pack = pk; rq.fmt = fm; rq.in = S & dda::in; rq.out = S & dda::out; rq.copy = false; rq.own = false; rq.rt = true;
  rq.name = str(rq.in ? "in" : "", rq.out ? "out" : "", " ", rq.order[0], rq.order[1], rq.order[2], packname(pk), fm == split_complex ? "s" : fm == interleaved_complex ? "i" : "a");
  Erased<T, D> &e = it;
  C->begin(str("rt ", tname<T>::get(), " ", it.what, " [", sshape(D, it.s.n), "] ", rq.name));
  ovxx::Rt_layout<D> rtl(pk, ovxx::Rt_tuple(rq.order[0], rq.order[1], rq.order[2]), fm, pk > dense ? unsigned(pk) : 0);
  Phase<T, D> ph(e, rq); Raw<T> w;
  {
    typedef ovxx::dda::Rt_data<B, S> DT; std::unique_ptr<DT> d(new DT(it.v.block(), rtl));
    DT *q = d.get(); fill_rt(w, *q, D, q->cost());
    ph.sync_in = [q]() { q->sync_in();}; ph.sync_out = [q]() { q->sync_out();};
    ph.inside(w);
  }
  ph.after(w);
}
template <typename O, pack_type P, storage_format_type F> struct Lay { typedef O order; static pack_type const pack = P; static storage_format_type const fmt = F;};
template <typename L, typename I> void lay(I &it, int w)
{
  if (w == 0) access<typename L::order, L::pack, L::fmt, dda::in>(it);
  else access<typename L::order, L::pack, L::fmt, dda::inout>(it);
}
template <typename L, typename I> void lay2(I &it) { lay<L>(it, 0); lay<L>(it, 1);}
template <typename L, typename I> void layo(I &it) { access<typename L::order, L::pack, L::fmt, dda::out>(it);}
template <typename L, typename I> void layc(I &it) { access<typename L::order, L::pack, L::fmt, dda::in | dda::copy>(it);}
template <typename L, typename I> void layio(I &it) { access<typename L::order, L::pack, L::fmt, dda::inout | dda::copy>(it);}
storage_format_type const AR = array, SP = split_complex, IN = interleaved_complex;
template <typename T, typename I> void all(I &it, kint<1>)
{
  lay2<Lay<row1_type, dense, AR>>(it); lay2<Lay<row1_type, unit_stride, SP>>(it); lay2<Lay<row1_type, aligned_16, IN>>(it);
  layo<Lay<row1_type, any_packing, AR>>(it); layc<Lay<row1_type, dense, AR>>(it); layc<Lay<row1_type, aligned_32, SP>>(it);
  layio<Lay<row1_type, dense, SP>>(it); layo<Lay<row1_type, dense, SP>>(it);
}
template <typename T, typename I> void all(I &it, kint<2>)
{
  lay2<Lay<row2_type, dense, AR>>(it); lay2<Lay<col2_type, dense, AR>>(it); lay2<Lay<row2_type, aligned_16, AR>>(it);
  lay<Lay<col2_type, aligned_32, AR>>(it, 0); layo<Lay<row2_type, unit_stride, IN>>(it); layo<Lay<col2_type, any_packing, IN>>(it);
  lay2<Lay<col2_type, unit_stride, SP>>(it); lay<Lay<row2_type, dense, SP>>(it, 1); layc<Lay<row2_type, dense, AR>>(it);
  layio<Lay<col2_type, aligned_16, SP>>(it); layo<Lay<col2_type, dense, AR>>(it);
  lay<Lay<row2_type, aligned_16, SP>>(it, 0);
}
template <typename T, typename I> void all(I &it, kint<3>)
{
  lay2<Lay<T012, dense, AR>>(it); lay<Lay<T210, dense, AR>>(it, 1); lay2<Lay<T012, aligned_16, AR>>(it);
  lay<Lay<T120, aligned_32, SP>>(it, 1); layo<Lay<T102, unit_stride, IN>>(it); layo<Lay<T201, dense, SP>>(it);
  layc<Lay<T021, dense, AR>>(it); lay<Lay<T012, unit_stride, AR>>(it, 0);
}
#ifndef PEXPR
struct Kinds
{
  int reps;
  template <int K> void operator()(kint<K>)
  {
    typedef PT T;
    for (int q = 0; q < int(C->n(reps)); ++q)
    {
      long n[3]; rshape(C->rng, PD, n, 7); if (PD == 1 && n[0] > 60) n[0] = 60; if (PD == 2 && n[0] > 20) { n[0] = 20; n[1] = 13;}
      auto it = ZooD<PD, T>::template mk<K>(C->rng, n);
      own<dda::in>(it); own<dda::inout>(it); own<dda::out>(it);
      all<T>(it, kint<PD>());
      for (int z = 0; z < 4; ++z) { runtime<dda::in>(it); runtime<dda::inout>(it); runtime<dda::out>(it);}
    }
  }
};
#else
// access to an expression: values presented are those of the expression
template <typename E> void expr_case(E const &e, std::vector<typename E::value_type> const &want, char const *what, long const *n)
{
  typedef typename E::value_type T; typedef typename E::block_type B;
  auto chk = [&](std::string const &how, Raw<T> const &w)
  {
    for (long l = 0; l < long(want.size()); ++l)
    { T g = w.get((l / n[1]) * w.st[0] + (l % n[1]) * w.st[1]); if (!(g == want[l])) { C->fail(str("expr:", how), str(what, " element #", l, " = ", g, " expected ", want[l])); return;} }
    C->ok(str(what, " ", how, " ", sshape(2, n)), 1 + want.size() / 8);
  };
  C->begin(str(what, " ", sshape(2, n)));
  { dda::Data<B, dda::in> d(e.block()); Raw<T> w; fill_raw(w, d, 2); chk("own", w);}
  { dda::Data<B, dda::in, Layout<2, row2_type, dense, array>> d(e.block()); Raw<T> w; fill_raw(w, d, 2); chk("row", w);}
  { dda::Data<B, dda::in, Layout<2, col2_type, aligned_16, array>> d(e.block()); Raw<T> w; fill_raw(w, d, 2); chk("col", w);}
  for (int k = 0; k < 2; ++k)
  {
    ovxx::Rt_layout<2> rtl(k ? dense : aligned_16, k ? ovxx::Rt_tuple(1, 0, 2) : ovxx::Rt_tuple(0, 1, 2), is_cplx<T>::value && k ? split_complex : array, k ? 0 : 16);
    ovxx::dda::Rt_data<B const, dda::in> d(e.block(), rtl); Raw<T> w; fill_rt(w, d, 2, 0); chk("runtime", w);
  }
}
template <typename T> void exprs(Ctx &c)
{
  for (int q = 0; q < int(c.n(60)); ++q)
  {
    long n[3]; rshape(c.rng, 2, n, 7); long N = n[0] * n[1];
    Matrix<T> a(n[0], n[1]); Matrix<T, Dense<2, T, col2_type>> b(n[0], n[1]);
    auto x = rvals<T>(c.rng, N), y = rvals<T>(c.rng, N); writeall(a, x); writeall(b, y);
    std::vector<T> w(N);
    for (long l = 0; l < N; ++l) w[l] = x[l] + y[l] * T(2); expr_case(a + b * T(2), w, "a+b*2", n);
    for (long l = 0; l < N; ++l) w[l] = -x[l]; expr_case(-a, w, "-a", n);
    std::vector<T> tw(N); long tn[3] = {n[1], n[0], 1};
    for (long i = 0; i < n[0]; ++i) for (long j = 0; j < n[1]; ++j) tw[j * n[0] + i] = y[i * n[1] + j] - T(1);
    expr_case(b.transpose() - T(1), tw, "b'-1", tn);
  }
}
#endif
}
void vt_main(Ctx &c)
{
  C = &c;
#ifdef PEXPR
  exprs<float>(c); exprs<std::complex<double>>(c);
  // documented helpers
  for (int q = 0; q < int(c.n(40)); ++q)
  {
    long n[3]; rshape(c.rng, 2, n, 7);
    Matrix<float> a(n[0], n[1]); Matrix<float, Dense<2, float, col2_type>> b(n[0], n[1]);
    c.begin("required_buffer_size " + sshape(2, n));
    typedef Layout<2, row2_type, dense, array> L;
    long r1 = dda::required_buffer_size<L>(a.block()), r2 = dda::required_buffer_size<L>(b.block());
    c.check(r1 == 0 && r2 >= n[0] * n[1], "required_buffer_size", [&] { return str(r1, " ", r2);});
    c.check(dda::cost<L>(a.block()) == 0 && dda::cost<L>(b.block()) != 0, "cost", [&] { return str("cost");});
    c.ok(str("rbs", sshape(2, n)));
  }
#else
  Kinds k = {PREPS}; for_kinds<PLO, PHI>::go(k);
#endif
}
