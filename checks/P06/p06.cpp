// P06: storage lives exactly as long as something can reach it.
// The default allocator is replaced by one that records every allocation; a
// model of who can reach which storage predicts, after every step of a random
// program, how many allocations must be live.
#include "model.hpp"
#include <ovxx/allocator.hpp>
#include <ovxx/aligned_array.hpp>
#include <ovxx/refcounted.hpp>
#include "main.hpp"
#include <memory>
#include <functional>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
using namespace vt;
static Ctx *C;

class Recorder : public ovxx::allocator
{
public:
  struct Rec { size_t size; void *raw; };
  std::map<void *, Rec> live_; long allocs = 0, frees = 0;
  bool bad = false; std::string why;
  void complain(std::string const &s) { if (!bad) { bad = true; why = s;}}
private:
  void *allocate(size_t size)
  {
    ++allocs;
    // exactly sized, so that the sanitizer's red zones begin right after
    void *p = 0;
    if (posix_memalign(&p, OVXX_ALLOC_ALIGNMENT, size ? size : 1)) throw std::bad_alloc();
    live_[p] = Rec{size, p};
    return p;
  }
  void deallocate(void *p, size_t size)
  {
    if (!p) return;
    ++frees;
    auto i = live_.find(p);
    if (i == live_.end()) { complain("release of memory that is not allocated (twice, or never)"); return;}
    if (i->second.size != size) complain(str("release of ", size, " bytes that were allocated as ", i->second.size));
    live_.erase(i);
    free(p);
  }
};
static Recorder *R;
static long live() { return long(R->live_.size());}

typedef std::complex<double> V;          // model values (small integers)
struct Store
{
  std::vector<V> x; long units; bool user;
  static long reachable;                 // allocations the model says must be live
  Store() : units(0), user(false) {}
  ~Store() { reachable -= units;}
};
long Store::reachable = 0;
typedef std::shared_ptr<Store> StoreP;
typedef std::function<std::vector<V>()> Calc;

template <typename T> V tov(T x) { return V(double(x), 0);}
template <typename T> V tov(std::complex<T> x) { return V(x.real(), x.imag());}
template <typename T> struct fromv { static T of(V v) { return T(v.real());} };
template <typename T> struct fromv<std::complex<T>> { static std::complex<T> of(V v) { return std::complex<T>(v.real(), v.imag());} };

// what a handle denotes
struct Model
{
  StoreP st; std::vector<long> idx; int comp; Calc calc; long n[3];
  std::vector<V> values() const
  {
    if (calc) return calc();
    std::vector<V> r;
    for (long i : idx) { V v = st->x[i]; r.push_back(comp == 1 ? V(v.real(), 0) : comp == 2 ? V(v.imag(), 0) : v);}
    return r;
  }
  void assign(std::vector<V> const &w)
  {
    for (size_t k = 0; k < idx.size(); ++k)
    { V &v = st->x[idx[k]]; v = comp == 1 ? V(w[k].real(), v.imag()) : comp == 2 ? V(v.real(), w[k].real()) : w[k];}
  }
};
struct H
{
  Model m; std::string what; bool writable;
  std::vector<std::shared_ptr<H>> keep;   // operands of a lazy expression, which only refers to them
  H() : writable(true) {}
  virtual ~H() {}
  virtual std::vector<V> read() = 0;
  virtual void write(std::vector<V> const &) = 0;
  virtual H *copy(int how) = 0;
  virtual H *derive(H *other) = 0;       // null when nothing further is compiled in
  virtual bool cplx() = 0;
};
template <int D> Sel<D> selof(Model const &m) { Sel<D> s; for (int d = 0; d < 3; ++d) s.n[d] = m.n[d]; s.idx = m.idx; return s;}
template <typename View, int Depth, bool W> struct HV;
template <int Depth, bool W, typename View, int D> __attribute__((noinline)) H *make(View v, Sel<D> const &s, Model const &from, std::string const &w, int comp = -1)
{
  HV<View, Depth, W> *h = new HV<View, Depth, W>(v);
  h->m.st = from.st; h->m.idx = s.idx; h->m.comp = comp < 0 ? from.comp : comp;
  for (int d = 0; d < 3; ++d) h->m.n[d] = s.n[d];
  h->what = w;
  return h;
}
template <int Depth, typename View> __attribute__((noinline)) H *lazy(View v, Model const &shape, Calc c, std::string const &w)
{
  HV<View, Depth, false> *h = new HV<View, Depth, false>(v);
  h->m.calc = c; h->m.comp = 0; for (int d = 0; d < 3; ++d) h->m.n[d] = shape.n[d];
  h->what = w; h->writable = false;
  return h;
}
static Calc select(Model const &m, std::vector<long> const &idx)
{ Model c = m; return [c, idx]() { std::vector<V> a = c.values(), r; for (long i : idx) r.push_back(a[i]); return r;};}
static std::vector<long> iota(long n) { std::vector<long> r; for (long i = 0; i < n; ++i) r.push_back(i); return r;}

template <typename View, bool W> struct Wr { static void go(View v, std::vector<V> const &x) { writeall(v, conv(x));}
  static std::vector<typename View::value_type> conv(std::vector<V> const &x) { std::vector<typename View::value_type> r; for (V e : x) r.push_back(fromv<typename View::value_type>::of(e)); return r;} };
template <typename View> struct Wr<View, false> { static void go(View, std::vector<V> const &) {} };

template <typename View> View by_value(View v) { return v;}
template <typename View> View through(View v) { View w = by_value(v); return by_value(w);}

template <bool W, int Depth, int D, bool Cx> struct Derive
{ template <typename View> static H *go(View, Model const &, H *) { return 0;} };
template <typename View, int Depth, bool W> struct HV : H
{
  View v;
  typedef typename View::value_type T;
  HV(View w) : v(w) { this->writable = W;}
  std::vector<V> read() { std::vector<V> r; for (T x : readall(v)) r.push_back(tov(x)); return r;}
  void write(std::vector<V> const &x) { Wr<View, W>::go(v, x);}
  bool cplx() { return is_cplx<T>::value;}
  H *copy(int how)
  {
    HV *h = how == 0 ? new HV(v) : how == 1 ? new HV(through(v)) : new HV(View(const_cast<typename View::block_type &>(v.block())));
    h->m = m; h->what = what; h->writable = writable; h->keep = keep;
    return h;
  }
  H *derive(H *o) {
    HV *p = dynamic_cast<HV *>(o); if (!p) p = this;
    H *h = Derive<W, Depth, int(View::dim), is_cplx<T>::value>::go(*this, *p, what);
    if (h && !h->writable) { h->keep.push_back(std::shared_ptr<H>(copy(0))); h->keep.push_back(std::shared_ptr<H>(p->copy(0)));}
    return h;
  }
};

// sub-blocks of stored data
#define SUBV(EXPR, SEL, W_) make<Depth - 1, true>(EXPR, SEL, h.m, what + W_)
template <int Depth> struct Derive<true, Depth, 1, false>
{
  template <typename Hd> static H *go(Hd &h, Hd &o, std::string const &what)
  {
    Sel<1> s = selof<1>(h.m);
    switch (C->rng.range(0, 4))
    {
      case 0: { Domain<1> d = rdom(C->rng, s.n[0]); return SUBV(h.v(d), sub(s, d), "(dom)");}
      case 1: { Model a = h.m; return lazy<Depth - 1>(-h.v, h.m, [a]() { auto r = a.values(); for (V &e : r) e = -e; return r;}, "-" + what);}
      case 2: { Model a = h.m, b = o.m; if (a.n[0] != b.n[0]) b = a; auto &w = a.n[0] == o.m.n[0] ? o.v : h.v;
        return lazy<Depth - 1>(h.v + w, h.m, [a, b]() { auto r = a.values(), q = b.values(); for (size_t i = 0; i < r.size(); ++i) r[i] += q[i]; return r;}, what + "+..");}
      case 3: { Model a = h.m; typename Hd::T k(3); return lazy<Depth - 1>(h.v * k, h.m, [a]() { auto r = a.values(); for (V &e : r) e *= 3; return r;}, "3*" + what);}
      default: { Model a = h.m; Domain<1> d = rdom(C->rng, s.n[0]); Sel<1> q = sub(Sel<1>::all(s.n[0]), d); Model sh = a; sh.n[0] = q.n[0];
        return lazy<Depth - 1>((h.v - h.v)(d), sh, [q]() { return std::vector<V>(q.idx.size(), V(0));}, "(v-v)(dom)");}
    }
  }
};
template <int Depth> struct Derive<true, Depth, 1, true>
{
  template <typename Hd> static H *go(Hd &h, Hd &o, std::string const &what)
  {
    Sel<1> s = selof<1>(h.m);
    switch (C->rng.range(0, 3))
    {
      case 0: return make<Depth - 1, true>(h.v.real(), s, h.m, what + ".real", 1);
      case 1: return make<Depth - 1, true>(h.v.imag(), s, h.m, what + ".imag", 2);
      case 2: { Model a = h.m; return lazy<Depth - 1>(vsip::conj(h.v), h.m, [a]() { auto r = a.values(); for (V &e : r) e = std::conj(e); return r;}, "conj " + what);}
      default: { Domain<1> d = rdom(C->rng, s.n[0]); return SUBV(h.v(d), sub(s, d), "(dom)");}
    }
  }
};
template <int Depth, bool Cx> struct Derive<true, Depth, 2, Cx>
{
  template <typename Hd> static H *go(Hd &h, Hd &o, std::string const &what)
  {
    Sel<2> s = selof<2>(h.m);
    long i = C->rng.range(0, s.n[0] - 1), j = C->rng.range(0, s.n[1] - 1);
    switch (C->rng.range(0, 6))
    {
      case 0: return SUBV(h.v.row(i), srow(s, i), ".row");
      case 1: return SUBV(h.v.col(j), scol(s, j), ".col");
      case 2: return SUBV(h.v.transpose(), trans(s), ".transpose");
      case 3: { Domain<1> a = rdom(C->rng, s.n[0]), b = rdom(C->rng, s.n[1]); return SUBV(h.v(Domain<2>(a, b)), sub(s, a, b), "(dom)");}
      case 4: return SUBV(h.v.diag(0), sdiag(s, 0), ".diag");
      case 5: { Model a = h.m, b = o.m; bool same = a.n[0] == b.n[0] && a.n[1] == b.n[1]; if (!same) b = a; auto &w = same ? o.v : h.v;
        return lazy<Depth - 1>(h.v - w, h.m, [a, b]() { auto r = a.values(), q = b.values(); for (size_t i = 0; i < r.size(); ++i) r[i] -= q[i]; return r;}, what + "-..");}
      default: { Model a = h.m; Sel<2> q = Sel<2>::all(s.n[0], s.n[1]); Sel<1> rr = srow(q, i); Model sh = a; sh.n[0] = rr.n[0]; sh.n[1] = 1;
        Calc c = select(a, rr.idx);
        return lazy<Depth - 1>((-h.v).row(i), sh, [c]() { auto r = c(); for (V &e : r) e = -e; return r;}, "(-m).row");}
    }
  }
};
template <int Depth, bool Cx> struct Derive<true, Depth, 3, Cx>
{
  template <typename Hd> static H *go(Hd &h, Hd &o, std::string const &what)
  {
    Sel<3> s = selof<3>(h.m);
    long x[3]; for (int d = 0; d < 3; ++d) x[d] = C->rng.range(0, s.n[d] - 1);
    vsip::whole_domain_type const &w = vsip::whole_domain;
    switch (C->rng.range(0, 5))
    {
      case 0: return SUBV(h.v(x[0], w, w), slice(s, 0, x[0]), "(i,*,*)");
      case 1: return SUBV(h.v(w, w, x[2]), slice(s, 2, x[2]), "(*,*,k)");
      case 2: return SUBV(h.v(x[0], w, x[2]), fibre(s, 1, x[0], x[2]), "(i,*,k)");
      case 3: { Domain<1> a = rdom(C->rng, s.n[0]), b = rdom(C->rng, s.n[1]), c = rdom(C->rng, s.n[2]); return SUBV(h.v(Domain<3>(a, b, c)), sub(s, a, b, c), "(dom)");}
      case 4: return SUBV((h.v.template transpose<1, 2, 0>()), permute(s, 1, 2, 0), ".transpose<1,2,0>");
      default: { Model a = h.m; return lazy<Depth - 1>(-h.v, h.m, [a]() { auto r = a.values(); for (V &e : r) e = -e; return r;}, "-" + what);}
    }
  }
};
#define NODERIVE(D, CX) template <> struct Derive<true, 0, D, CX> { template <typename Hd> static H *go(Hd &, Hd &, std::string const &) { return 0;} };
NODERIVE(1, false) NODERIVE(1, true) NODERIVE(2, false) NODERIVE(2, true) NODERIVE(3, false) NODERIVE(3, true)
template <int Depth, int D, bool Cx> struct Derive<false, Depth, D, Cx> { template <typename Hd> static H *go(Hd &, Hd &, std::string const &) { return 0;} };

// ---- creation ------------------------------------------------------------------
#ifndef P_D
#define P_D 1
#define P_T float
#endif
typedef P_T T;
static int const D = P_D, DEP = P_DEPTH;
typedef vsip::tuple<0, 1, 2> O0; typedef vsip::tuple<2, 1, 0> O2;
typedef typename std::conditional<D == 1, O0, typename std::conditional<D == 2, vsip::tuple<1, 0, 2>, O2>::type>::type OX;
template <int D_, typename B> struct vtype; template <typename B> struct vtype<1, B> { typedef vsip::Vector<T, B> t;};
template <typename B> struct vtype<2, B> { typedef vsip::Matrix<T, B> t;}; template <typename B> struct vtype<3, B> { typedef vsip::Tensor<T, B> t;};
template <typename B> vsip::Vector<T, B> mk(long const *n, std::integral_constant<int, 1>, bool init) { return init ? vsip::Vector<T, B>(n[0], T(5)) : vsip::Vector<T, B>(n[0]);}
template <typename B> vsip::Matrix<T, B> mk(long const *n, std::integral_constant<int, 2>, bool init) { return init ? vsip::Matrix<T, B>(n[0], n[1], T(5)) : vsip::Matrix<T, B>(n[0], n[1]);}
template <typename B> vsip::Tensor<T, B> mk(long const *n, std::integral_constant<int, 3>, bool init) { return init ? vsip::Tensor<T, B>(n[0], n[1], n[2], T(5)) : vsip::Tensor<T, B>(n[0], n[1], n[2]);}
static Domain<1> dm(long const *n, kint<1>) { return Domain<1>(n[0]);}
static Domain<2> dm(long const *n, kint<2>) { return Domain<2>(n[0], n[1]);}
static Domain<3> dm(long const *n, kint<3>) { return Domain<3>(n[0], n[1], n[2]);}
static std::vector<V> fresh(long n) { std::vector<V> r; for (long i = 0; i < n; ++i) r.push_back(is_cplx<T>::value ? V(C->rng.range(-9, 9), C->rng.range(-9, 9)) : V(C->rng.range(-9, 9), 0)); return r;}
static std::vector<std::vector<T> *> usermem;
template <typename B> __attribute__((noinline)) H *created(int how, long const *n, long before)
{
  typedef typename vtype<D, B>::t View;
  long tot = n[0] * n[1] * n[2];
  HV<View, DEP, true> *h;
  if (how == 0) h = new HV<View, DEP, true>(mk<B>(n, std::integral_constant<int, D>(), true));
  else if (how == 1) h = new HV<View, DEP, true>(mk<B>(n, std::integral_constant<int, D>(), false));
  else if (how == 2)
  { // a block of our own, handed over
    B *b = new B(dm(n, kint<D>()), T(1)); h = new HV<View, DEP, true>(View(*b)); b->decrement_count();
  }
  else
  { // user storage
    usermem.push_back(new std::vector<T>(tot)); 
    B *b = new B(dm(n, kint<D>()), usermem.back()->data()); b->admit(false); h = new HV<View, DEP, true>(View(*b)); b->decrement_count();
  }
  std::vector<V> x = fresh(tot); h->write(x);
  StoreP st = std::make_shared<Store>(); st->x = x; st->units = live() - before; st->user = how == 3;
  Store::reachable += st->units;
  h->m.st = st; h->m.idx = iota(tot); h->m.comp = 0; for (int d = 0; d < 3; ++d) h->m.n[d] = n[d];
  h->what = how == 0 ? "view" : how == 1 ? "uninitialised view" : how == 2 ? "own block" : "user block";
  return h;
}
static H *create()
{
  long n[3] = {1, 1, 1}; for (int d = 0; d < D; ++d) n[d] = C->rng.range(1, D == 1 ? 12 : D == 2 ? 5 : 4);
  if (C->rng.coin(2, 3)) { n[0] = 4; for (int d = 1; d < D; ++d) n[d] = 3;}
  long b = live();
  int how = int(C->rng.range(0, 3));
  switch (C->rng.range(0, 3))
  {
    case 0: return created<vsip::Dense<D, T, O0>>(how, n, b);
    case 1: return created<vsip::Dense<D, T, OX>>(how, n, b);
    case 2: return created<typename SB<D, T, O0, vsip::dense, vsip::split_complex>::type>(how, n, b);
    default: return created<typename SB<D, T, OX, vsip::aligned_32, vsip::array>::type>(how == 3 ? 0 : how, n, b);
  }
}
static bool balance(char const *when)
{
  if (R->bad) { C->fail("allocator", R->why); R->bad = false; return false;}
  if (live() != Store::reachable) { C->fail(str("storage:", live() > Store::reachable ? "kept" : "gone"), str(when, ": ", live(), " allocations live, ", Store::reachable, " reachable")); return false;}
  return true;
}
static bool verify(H &h)
{
  std::vector<V> g = h.read(), w = h.m.values();
  if (g.size() != w.size()) { C->fail("values:size", str(h.what, ": ", g.size(), " expected ", w.size())); return false;}
  for (size_t i = 0; i < g.size(); ++i) if (g[i] != w[i]) { C->fail("values", str(h.what, " #", i, " = ", g[i], " expected ", w[i])); return false;}
  return true;
}
static long heap;
static void on_malloc(const volatile void *, size_t) { ++heap;}
static void on_free(const volatile void *p) { if (p) --heap;}

static void program(long steps)
{
  Rng &r = C->rng;
  std::vector<std::unique_ptr<H>> hs;
  std::string trace;
  for (long k = 0; k < steps; ++k)
  {
    int op = hs.empty() ? 0 : int(r.range(0, 9));
    if (hs.size() > 14) op = 8;
    size_t i = hs.empty() ? 0 : r.range(0, long(hs.size()) - 1), j = hs.empty() ? 0 : r.range(0, long(hs.size()) - 1);
    std::string what = hs.empty() ? "" : hs[i]->what;
    static char const *nm[] = {"create", "create", "copy", "derive", "derive", "derive", "write", "assign", "destroy", "destroy"};
    C->begin(str(tname<T>::get(), D, "d step ", k, " ", nm[op], " ", what));
    switch (op)
    {
      case 0: case 1: hs.push_back(std::unique_ptr<H>(create())); break;
      case 2: hs.push_back(std::unique_ptr<H>(hs[i]->copy(int(r.range(0, 2))))); break;
      case 3: case 4: case 5: { H *h = hs[i]->derive(hs[j].get()); if (h) hs.push_back(std::unique_ptr<H>(h)); break; }
      case 6: if (hs[i]->writable)
        { std::vector<V> x = fresh(long(hs[i]->m.idx.size())); if (!hs[i]->cplx()) for (V &e : x) e = V(e.real(), 0); hs[i]->write(x); hs[i]->m.assign(x);} break;
      case 7: std::swap(hs[i], hs[j]); break;
      default: hs.erase(hs.begin() + i); break;
    }
    bool good = balance(nm[op]);
    for (auto &h : hs) good = verify(*h) && good;
    good = balance("reading") && good;
    if (good) C->ok(str(tname<T>::get(), D, nm[op], hs.size(), what, live()));
    else { for (auto &h : hs) C->count("abandoned"); break;}
  }
  // destroy in random order
  while (!hs.empty())
  {
    hs.erase(hs.begin() + r.range(0, long(hs.size()) - 1));
    C->begin("final destruction, " + str(hs.size()) + " left");
    if (!balance("destroy")) { for (auto &h : hs) h.release(); break;}
    for (auto &h : hs) if (!verify(*h)) break;
  }
  Store::reachable = live();
}
// ---- the pieces underneath -----------------------------------------------------
struct Counted : ovxx::refcounted<Counted> { static long n; int id; Counted(int i) : id(i) { ++n;} ~Counted() { --n; id = -1;} };
long Counted::n = 0;
static void counted_pointers()
{
  Rng &r = C->rng;
  for (long q = 0; q < C->n(40); ++q)
  {
    typedef ovxx::refcounted_ptr<Counted> P;
    std::vector<std::unique_ptr<P>> ps; std::vector<int> id; int next = 0;
    for (int k = 0; k < 60; ++k)
    {
      int op = int(r.range(0, 6)); if (ps.empty()) op = 0;
      size_t i = ps.empty() ? 0 : r.range(0, long(ps.size()) - 1), j = ps.empty() ? 0 : r.range(0, long(ps.size()) - 1);
      C->begin(str("counted pointers, step ", k, " op ", op));
      switch (op)
      {
        case 0: ps.emplace_back(new P(new Counted(next), false)); id.push_back(next++); break;
        case 1: ps.emplace_back(new P()); id.push_back(-1); break;
        case 2: ps.emplace_back(new P(*ps[i])); id.push_back(id[i]); break;
        case 3: *ps[i] = *ps[j]; id[i] = id[j]; break;
        case 4: ps[i]->reset(new Counted(next)); id[i] = next++; break;
        case 5: { Counted *p = ps[j]->get(); if (p && id[i] != id[j]) { ps[i]->reset(p, true); id[i] = id[j];} break; }
        default: ps.erase(ps.begin() + i); id.erase(id.begin() + i);
      }
      std::set<int> alive(id.begin(), id.end()); alive.erase(-1);
      bool good = long(alive.size()) == Counted::n;
      for (size_t k2 = 0; k2 < ps.size(); ++k2) good = good && (ps[k2]->get() ? ps[k2]->get()->id : -1) == id[k2];
      if (!good) { C->fail("counted-pointer", str(Counted::n, " objects alive, expected ", alive.size())); return;}
      C->ok(str("pointers ", op, " ", ps.size(), " ", alive.size()));
    }
  }
}
template <typename E> static void arrays(char const *nm)
{
  Rng &r = C->rng;
  for (int k = 0; k < 60; ++k)
  {
    C->begin(str("aligned arrays of ", nm));
    long h0 = heap;
    {
      size_t al = size_t(16) << r.range(0, 5), n = r.range(0, 70); std::vector<E> src(n);
      ovxx::aligned_array<E> a(al, n, r.coin() ? src.data() : 0), b(n), c;
      C->check(reinterpret_cast<size_t>(a.get()) % al == 0, "array-alignment", [&] { return str("asked for ", al);});
      C->check(reinterpret_cast<size_t>(b.get()) % OVXX_ALLOC_ALIGNMENT == 0, "array-alignment", [&] { return std::string("default");});
      for (size_t i = 0; i < n; ++i) a[i] = E(i % 100);
      if (r.coin()) { ovxx::aligned_array<E> d(a); C->check(d.size() == n && (!n || d[n - 1] == E((n - 1) % 100)), "array-transfer", [&] { return std::string("contents");}); a = d;}
      c = a;
      C->check(c.size() == n && (!n || c[n - 1] == E((n - 1) % 100)), "array-transfer", [&] { return str("size ", c.size(), " expected ", n);});
    }
    if (heap != h0) C->fail("array-leak", str(heap - h0, " allocations")); else C->ok(str("array ", nm, k));
  }
}
static void default_allocator(ovxx::allocator *a)
{
  Rng &r = C->rng;
  std::vector<std::pair<char *, long>> ps;
  long held = 0;
  for (int k = 0; k < 300; ++k)
  {
    C->begin("default allocator");
    if (ps.empty() || r.coin(3, 5))
    {
      long n = r.coin(1, 8) ? 0 : r.range(1, 300); long h0 = heap; char *p = a->allocate<char>(n); held += heap - h0;
      C->check(reinterpret_cast<size_t>(p) % OVXX_ALLOC_ALIGNMENT == 0, "allocator-alignment", [&] { return str(n, " bytes");});
      memset(p, k & 127, n); ps.push_back(std::make_pair(p, n));
      for (auto &q : ps) if (&q != &ps.back() && q.first < p + n && p < q.first + q.second) C->fail("allocator-overlap", "");
    }
    else { size_t i = r.range(0, long(ps.size()) - 1); long h0 = heap; a->deallocate(ps[i].first, ps[i].second); held += heap - h0; ps.erase(ps.begin() + i);}
    C->ok(str("allocator ", ps.size()));
  }
  for (auto &q : ps) { long h0 = heap; a->deallocate(q.first, q.second); held += heap - h0;}
  if (held) C->fail("allocator-leak", str(held, " pieces of memory"));
}
void vt_main(Ctx &c)
{
  C = &c;
  __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#ifdef P_UNDER
  counted_pointers();
  arrays<float>("float"); arrays<std::complex<double>>("complex<double>"); arrays<char>("char");
  default_allocator(ovxx::allocator::get_default());
#else
  ovxx::allocator *before = ovxx::allocator::get_default();
  R = new Recorder; ovxx::allocator::set_default(R);
  for (long q = 0; q < c.n(30); ++q)
  {
    long h0 = heap; (void)h0;
    program(40);
    if (live()) { C->fail("storage:leaked", str(live(), " allocations after everything was destroyed")); Store::reachable = live();}
    for (auto *u : usermem) delete u; usermem.clear();
  }
  ovxx::allocator::set_default(before);
  C->count("allocations", R->allocs); C->count("releases", R->frees);
#endif
}
