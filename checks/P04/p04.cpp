// P04: user storage / admit / release / rebind / find against a model.
#include "model.hpp"
#include "main.hpp"
#include <memory>
#include <ovxx/view.hpp>
using namespace vt; using namespace vsip;
namespace
{
enum Fmt { f_none, f_array, f_inter, f_split };
char const *fname[] = {"none", "array", "interleaved", "split"};
// user memory: exact-size heap blocks so that ASan sees any access outside
template <typename T> struct UMem
{
  typedef typename scalar<T>::type S;
  Fmt fmt; long n; T *a; S *i; S *re, *im;
  std::vector<T> last;             // expected contents
  UMem(Fmt f, long size) : fmt(f), n(size), a(0), i(0), re(0), im(0)
  {
    if (f == f_array) a = new T[n];
    if (f == f_inter) i = new S[2 * n];
    if (f == f_split) { re = new S[n]; im = new S[n];}
  }
  ~UMem() { delete[] a; delete[] i; delete[] re; delete[] im;}
  UMem(UMem const &) = delete;
  static void split(std::complex<S> const &v, S &r, S &m) { r = v.real(); m = v.imag();}
  static void split(S v, S &r, S &m) { r = v; m = S();}
  static void join(std::complex<S> &v, S r, S m) { v = std::complex<S>(r, m);}
  static void join(S &v, S r, S) { v = r;}
  T get(long k) const
  {
    T v; if (fmt == f_array) return a[k];
    if (fmt == f_inter) join(v, i[2 * k], i[2 * k + 1]); else join(v, re[k], im[k]);
    return v;
  }
  void put(long k, T v)
  {
    if (fmt == f_array) a[k] = v;
    else if (fmt == f_inter) split(v, i[2 * k], i[2 * k + 1]);
    else split(v, re[k], im[k]);
  }
  void fill(Rng &r) { last.resize(n); for (long k = 0; k < n; ++k) put(k, last[k] = gen<T>::small(r));}
  std::string unchanged() const
  { for (long k = 0; k < n; ++k) if (!(get(k) == last[k])) return str("user element #", k, " = ", get(k), " expected ", last[k]); return "";}
};

// block access, type-erased over layout
template <typename T> struct Blk
{
  typedef typename scalar<T>::type S;
  virtual ~Blk() {}
  virtual void rebind(UMem<T> &m) = 0;
  virtual void rebind_dom(UMem<T> &m, long const *n) = 0;
  virtual std::string find(UMem<T> *m, Fmt) = 0;
  virtual void admit(int update) = 0;              // -1: default argument
  virtual void release(int update) = 0;
  virtual std::string release_ptr(bool update, UMem<T> *m, Fmt) = 0;
  virtual bool admitted() = 0;
  virtual user_storage_type us() = 0;
  virtual std::vector<T> read(int how) = 0;        // storage order
  virtual void put(long k, T v, int how) = 0;
  virtual void twice() = 0;
  virtual long size(int d) = 0;
  long n[3];
};
template <int D> Domain<D> mkdom(long const *n);
template <> Domain<1> mkdom<1>(long const *n) { return Domain<1>(n[0]);}
template <> Domain<2> mkdom<2>(long const *n) { return Domain<2>(n[0], n[1]);}
template <> Domain<3> mkdom<3>(long const *n) { return Domain<3>(n[0], n[1], n[2]);}
template <int D, typename T, typename B> struct vtype { typedef Vector<T, B> type;};
template <typename T, typename B> struct vtype<2, T, B> { typedef Matrix<T, B> type;};
template <typename T, typename B> struct vtype<3, T, B> { typedef Tensor<T, B> type;};

template <typename T, typename B, typename F> void with_ptr(UMem<T> &m, F f, std::false_type) { f(m.a);}
template <typename T, typename B, typename F> void with_ptr(UMem<T> &m, F f, std::true_type)
{
  if (m.fmt == f_array) f(m.a); else if (m.fmt == f_inter) f(m.i); else f(std::make_pair(m.re, m.im));
}
template <int D, typename T, typename B> struct BlkT : Blk<T>
{
  typedef typename scalar<T>::type S;
  typedef typename B::layout_type::order_type O;
  typedef typename vtype<D, T, B>::type V;
  typedef typename is_cplx<T>::type cx;
  B *b; std::unique_ptr<V> v;
  BlkT(long const *nn, UMem<T> *m, bool parts) : b(0)
  {
    setn(nn);
    if (!m) b = new B(mkdom<D>(nn));
    else build(*m, parts, cx());
    // the view takes its own reference, ours goes away
    v.reset(new V(*b)); b->decrement_count();
  }
  void setn(long const *nn) { for (int d = 0; d < 3; ++d) this->n[d] = d < D ? nn[d] : 1;}
  void build(UMem<T> &m, bool, std::false_type) { b = new B(mkdom<D>(this->n), m.a);}
  void build(UMem<T> &m, bool parts, std::true_type)
  {
    if (m.fmt == f_array) b = new B(mkdom<D>(this->n), m.a);
    else if (m.fmt == f_inter) b = new B(mkdom<D>(this->n), m.i);
    else if (parts) b = new B(mkdom<D>(this->n), m.re, m.im);
    else b = new B(mkdom<D>(this->n), std::make_pair(m.re, m.im));
  }
  struct R { B *b; template <typename P> void operator()(P p) { b->rebind(p);} };
  struct RD { B *b; long const *n; template <typename P> void operator()(P p) { b->rebind(p, mkdom<D>(n));} };
  void rebind(UMem<T> &m) { with_ptr<T, B>(m, R{b}, cx());}
  void rebind_dom(UMem<T> &m, long const *nn) { setn(nn); with_ptr<T, B>(m, RD{b, this->n}, cx());}
  std::string find(UMem<T> *m, Fmt f) { return find(m, f, cx());}
  std::string find(UMem<T> *m, Fmt, std::false_type)
  { T *p = (T*)8; b->find(p); return p == (m ? m->a : 0) ? "" : "find returned another pointer";}
  std::string find(UMem<T> *m, Fmt f, std::true_type)
  {
    if (f == f_array) { T *p = (T*)8; b->find(p); if (p != (m ? m->a : 0)) return "find(T*) returned another pointer";}
    else if (f == f_inter) { S *p = (S*)8; b->find(p); if (p != (m ? m->i : 0)) return "find(interleaved) returned another pointer";}
    else
    {
      S *p = (S*)8, *q = (S*)8; b->find(p, q);
      if (p != (m ? m->re : 0) || (m && q != m->im)) return "find(real,imag) returned other pointers";
      std::pair<S*, S*> pp; b->find(pp);
      if (pp.first != (m ? m->re : 0) || (m && pp.second != m->im)) return "find(pair) returned other pointers";
    }
    return "";
  }
  void admit(int u) { if (u < 0) b->admit(); else b->admit(u != 0);}
  void release(int u) { if (u < 0) b->release(); else b->release(u != 0);}
  std::string release_ptr(bool u, UMem<T> *m, Fmt f) { return rel(u, m, f, cx());}
  std::string rel(bool u, UMem<T> *m, Fmt, std::false_type)
  { T *p = (T*)8; b->release(u, p); return p == (m ? m->a : 0) ? "" : "release returned another pointer";}
  std::string rel(bool u, UMem<T> *m, Fmt f, std::true_type)
  {
    if (f == f_array) { T *p = (T*)8; b->release(u, p); return p == (m ? m->a : 0) ? "" : "release(T*) returned another pointer";}
    if (f == f_inter) { S *p = (S*)8; b->release(u, p); return p == (m ? m->i : 0) ? "" : "release(interleaved) returned another pointer";}
    S *p = (S*)8, *q = (S*)8; b->release(u, p, q);
    return p == (m ? m->re : 0) && (!m || q == m->im) ? "" : "release(real,imag) returned other pointers";
  }
  bool admitted() { return b->admitted();}
  user_storage_type us() { return b->user_storage();}
  // row-major number -> storage number
  long pos(long l) const
  {
    long x[3] = {0, 0, 0}; long const *n = this->n;
    if (D == 1) return l;
    if (D == 2) { x[0] = l / n[1]; x[1] = l % n[1];}
    else { x[0] = l / (n[1] * n[2]); x[1] = l / n[2] % n[1]; x[2] = l % n[2];}
    int o[3] = {int(O::impl_dim0), int(O::impl_dim1), int(O::impl_dim2)};
    if (D == 2) return x[o[0]] * n[o[1]] + x[o[1]];
    return (x[o[0]] * n[o[1]] + x[o[1]]) * n[o[2]] + x[o[2]];
  }
  long total() const { return this->n[0] * this->n[1] * this->n[2];}
  std::vector<T> read(int how)
  {
    std::vector<T> r(total());
    if (how == 0) { for (long l = 0; l < total(); ++l) r[pos(l)] = vget(*v, this->n, l);}
    else
    {
      V w = vfresh(cx()); w = *v;            // through the assignment machinery
      for (long l = 0; l < total(); ++l) r[pos(l)] = vget(w, this->n, l);
    }
    return r;
  }
  V mk(kint<1>) { return V(this->n[0]);}
  template <int K> V mk(kint<K>) { return mk2(kint<K>());}
  V vfresh(...) { B *p = new B(mkdom<D>(this->n)); V w(*p); p->decrement_count(); return w;}
  void put(long k, T x, int how)
  {
    long l = 0; while (pos(l) != k) ++l;
    if (how == 0) vput(*v, this->n, l, x);
    else { V w = vfresh(0); w = *v; vput(w, this->n, l, x); *v = w;}
  }
  void twice() { *v = *v + *v;}
  long size(int d) { return v->size(d);}
};

template <typename T> T twicev(T x) { return x + x;}

template <int D, typename T, typename B>
void program(Ctx &c, std::string const &form, bool split_store)
{
  Rng &r = c.rng;
  bool cx = is_cplx<T>::value;
  long n[3] = {1, 1, 1}; for (int d = 0; d < D; ++d) n[d] = r.range(1, D == 1 ? 20 : 5);
  long N = n[0] * n[1] * n[2];
  std::vector<std::unique_ptr<UMem<T>>> pool;
  auto rfmt = [&]() { return cx ? Fmt(r.range(1, 3)) : f_array;};
  auto mk = [&](long size) { pool.emplace_back(new UMem<T>(rfmt(), size)); pool.back()->fill(r); return pool.back().get();};
  UMem<T> *cur = r.coin(1, 5) ? 0 : mk(N);
  bool untouched = !cur && r.coin();   // bind user storage before anything was ever stored
  std::string trace = str(form, " ", sshape(D, n), " ", cur ? fname[cur->fmt] : "none", ":");
  c.begin(trace);
  std::unique_ptr<Blk<T>> b(new BlkT<D, T, B>(n, cur, r.coin()));
  auto compatible = [&](UMem<T> *m) { return m && (cx ? (m->fmt == f_split) == split_store : true);};
  bool admitted = cur == 0; std::vector<T> val; bool known = false;
  if (admitted) { known = false;}
  std::string prev = "ctor";
  auto err = [&](std::string const &key, std::string const &d) { c.fail(str(form, "/", key), trace + " => " + d);};
  int steps = int(r.range(6, 24));
  for (int s = 0; s < steps; ++s)
  {
    int op = int(r.range(0, 11)); if (untouched && s < 3) op = s == 0 ? 2 : s == 1 ? 5 : 1;
    std::string name, e; int upd = int(r.range(-1, 1));
    std::string pre = str(admitted ? "A" : "R", cur ? fname[cur->fmt] : "none");
    if (op <= 1)
    {
      name = str("admit(", upd, ")"); c.begin(trace += " " + name);
      b->admit(upd);
      if (!admitted)
      {
        if (upd != 0 && cur) { val = cur->last; known = true;}
        else if (upd == 0 || !cur) { if (cur) known = false;}   // library storage keeps its values
        admitted = true;
        if (cur) { e = cur->unchanged(); if (!e.empty()) err("admit-wrote-user-memory", e);}
      }
    }
    else if (op <= 3)
    {
      bool viaptr = op == 3; if (viaptr && upd < 0) upd = 1;
      name = str("release(", upd, viaptr ? ",ptr)" : ")"); c.begin(trace += " " + name);
      if (viaptr) { e = b->release_ptr(upd != 0, cur, cur ? cur->fmt : f_array); if (!e.empty()) err("release-pointer", e);}
      else b->release(upd);
      if (admitted && cur)
      {
        if (upd != 0 && known) cur->last = val;
        if (upd != 0 ? known : !compatible(cur)) { e = cur->unchanged(); if (!e.empty()) err(upd ? "release-update" : "release-noupdate-wrote", e);}
        for (long k = 0; k < cur->n; ++k) cur->last[k] = cur->get(k);   // unspecified where no update was asked for
      }
      admitted = false;
    }
    else if (op == 4)
    {
      name = "find"; c.begin(trace += " find");
      e = b->find(cur, cur ? cur->fmt : Fmt(cx ? r.range(1, 3) : 1)); if (!e.empty()) err("find", e);
    }
    else if (op == 5 && !admitted)
    {
      UMem<T> *old = cur;
      bool again = r.coin(1, 4) && cur; bool dom = r.coin(1, 3);
      if (again) dom = false;
      if (dom) { for (int d = 0; d < D; ++d) n[d] = r.range(1, D == 1 ? 20 : 5); N = n[0] * n[1] * n[2];}
      UMem<T> *m = again ? cur : mk(N);
      name = str(dom ? "rebind_dom" : "rebind", "-", fname[m->fmt]); c.begin(trace += " " + name + (dom ? sshape(D, n) : ""));
      if (dom) b->rebind_dom(*m, n); else b->rebind(*m);
      if (old) { e = old->unchanged(); if (!e.empty()) err("rebind-wrote-old", e);}
      e = m->unchanged(); if (!e.empty()) err("rebind-wrote-new", e);
      cur = m; known = false; val.clear();
      for (int d = 0; d < D; ++d) if (b->size(d) != n[d]) err("rebind-size", str("size(", d, ") is ", b->size(d)));
    }
    else if (op == 6 && !admitted && cur)
    { name = "user-write"; trace += " uw"; cur->fill(r);}
    else if (op == 6 && admitted && cur && !compatible(cur))
    { name = "user-scribble"; trace += " us"; cur->fill(r);}     // must not be seen by the view
    else if (op == 7 && admitted && known)
    { name = "put"; c.begin(trace += " put"); long k = r.range(0, N - 1); T x = gen<T>::small(r); b->put(k, x, int(r.range(0, 1))); val[k] = x;}
    else if (op == 8 && admitted && known)
    { name = "twice"; c.begin(trace += " twice"); b->twice(); for (auto &x : val) x = twicev(x); for (auto &x : val) if (magd(x) > 1e4) known = false;}
    else if (op >= 9 && admitted && !known)
    {
      name = "fill"; c.begin(trace += " fill"); val.resize(N);
      for (long k = 0; k < N; ++k) { val[k] = gen<T>::small(r); b->put(k, val[k], 0);}
      known = true;
    }
    else continue;
    // observation after every operation
    if (b->admitted() != admitted) err("admitted-state", str("admitted() is ", b->admitted()));
    user_storage_type want = !cur ? no_user_format : cur->fmt == f_array ? array_format : cur->fmt == f_inter ? interleaved_format : split_format;
    if (b->us() != want) err("user_storage", str("user_storage() is ", int(b->us())));
    if (admitted && known)
    {
      std::vector<T> got = b->read(int(r.range(0, 1)));
      for (long k = 0; k < N; ++k) if (!(got[k] == val[k])) { err("view-values/" + name, str("storage element #", k, " = ", got[k], " expected ", val[k])); break;}
    }
    if (!admitted && cur) { e = cur->unchanged(); if (!e.empty()) err("user-memory/" + name, e);}
    for (auto &m : pool) if (m.get() != cur) { e = m->unchanged(); if (!e.empty()) { err("unbound-memory-written", e); break;} }
    c.ok(str(form, "|", pre, "|", name, "|", prev)); c.count("ops");
    prev = name;
  }
}
template <int D, typename T, typename O, storage_format_type S> using St =
  ovxx::Strided<D, T, Layout<D, O, dense, is_cplx<T>::value ? S : array>, Local_map>;
#define RUN(D, T, B, form, sp) for (long k = 0; k < c.n(120); ++k) program<D, T, B>(c, form, is_cplx<T>::value && B::storage_format == split_complex)
}
void vt_main(Ctx &c)
{
  typedef std::complex<float> cf; typedef std::complex<double> cd;
#if PGRP == 1
  { typedef Dense<1, float> B; RUN(1, float, B, "Dense1f", false);}
  { typedef Dense<1, double> B; RUN(1, double, B, "Dense1d", false);}
  { typedef Dense<1, int> B; RUN(1, int, B, "Dense1i", false);}
  { typedef Dense<1, bool> B; (void)sizeof(B);}
#elif PGRP == 2
  { typedef Dense<1, cf> B; RUN(1, cf, B, "Dense1cf", false);}
  { typedef St<1, cd, T012, interleaved_complex> B; RUN(1, cd, B, "Inter1cd", false);}
  { typedef St<1, cf, T012, split_complex> B; RUN(1, cf, B, "Split1cf", true);}
#elif PGRP == 3
  { typedef Dense<2, cd> B; RUN(2, cd, B, "Dense2cd", false);}
  { typedef Dense<2, cf, col2_type> B; RUN(2, cf, B, "Dense2cf-col", false);}
  { typedef St<2, cf, col2_type, split_complex> B; RUN(2, cf, B, "Split2cf-col", true);}
#elif PGRP == 4
  { typedef Dense<2, float> B; RUN(2, float, B, "Dense2f", false);}
  { typedef Dense<2, double, col2_type> B; RUN(2, double, B, "Dense2d-col", false);}
  { typedef Dense<3, float> B; RUN(3, float, B, "Dense3f", false);}
  { typedef Dense<3, int, T201> B; RUN(3, int, B, "Dense3i-201", false);}
#else
  { typedef Dense<3, cf, T120> B; RUN(3, cf, B, "Dense3cf-120", false);}
  { typedef St<3, cd, T012, split_complex> B; RUN(3, cd, B, "Split3cd", true);}
  { typedef St<2, cd, row2_type, interleaved_complex> B; RUN(2, cd, B, "Inter2cd", false);}
#endif
}
