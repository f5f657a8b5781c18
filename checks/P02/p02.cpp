// P02: assignment transfers every element to the element with the same index,
// and nothing else, for every pair of storage forms.
#include "model.hpp"
#include "main.hpp"
using namespace vsip;
using namespace vt;

typedef P_LT TL; typedef P_RT TR;
static Ctx *C;

template <typename T, typename U> struct conv { static T of(U x) { return T(x);} };

__attribute__((noinline)) static void drive(Erased<TL, PD> &l, Erased<TR, PD> &r, long const *n, void (*op)(void *), void *arg)
{
  Ctx &c = *C;
  std::string sig = str(tname<TL>::get(), " ", l.what, " = ", tname<TR>::get(), " ", r.what, " [", sshape(PD, n), "]");
  c.begin(sig);
  l.guards(c.rng); r.guards(c.rng);
  l.setup(rvals<TL>(c.rng, l.s.total()));
  std::vector<TR> x = rvals<TR>(c.rng, r.s.total(), 0, 99);
  r.setup(x);
  std::vector<TL> want;
  for (auto &e : x) want.push_back(conv<TL, TR>::of(e));
  op(arg);
  std::string e = l.verify(want);
  if (!e.empty()) { c.fail("assign", sig + ": left side: " + e); return;}
  e = r.verify(x);
  if (!e.empty()) { c.fail("assign-source", sig + ": right side changed: " + e); return;}
  c.ok(sig, 2);
}
template <typename L, typename R> struct Op
{
  L l; R r; int how;
  static void go(void *p) { Op *o = static_cast<Op *>(p); o->l.v = o->r.v;}
};
template <int KL> struct Right
{
  template <int KR> void operator()(kint<KR>)
  {
    for (int q = 0; q < int(C->n(REPS)); ++q)
    {
      long n[3]; rshape(C->rng, PD, n);
      typedef ZooD<PD, TL> ZL; typedef ZooD<PD, TR> ZR;
      auto l = erase(ZL::template mk<KL>(C->rng, n));
      auto r = erase(ZR::template mk<KR>(C->rng, n));
      typedef Op<decltype(l), decltype(r)> O;
      O o = {l, r, 0};
      drive(o.l, o.r, n, &O::go, &o);
    }
  }
};
struct Left
{
  template <int KL> void operator()(kint<KL>) { Right<KL> r; for_kinds<0, ZooD<PD, TR>::count>::go(r);}
};
#if PD == 2
// m = m.transpose() on square views: the library promises an in-place transpose
template <typename I> struct TOp { I l; static void go(void *p) { TOp *o = static_cast<TOp *>(p); o->l.v = o->l.v.transpose();} };
struct InPlace
{
  template <int K> void operator()(kint<K>)
  {
    Ctx &c = *C;
    for (int q = 0; q < int(c.n(REPS)); ++q)
    {
      long n[3] = {c.rng.range(1, 9), 0, 1}; if (c.rng.coin(1, 6)) n[0] = c.rng.range(10, 40);
      n[1] = n[0];
      auto l = erase(ZooD<2, TL>::template mk<K>(c.rng, n));
      TOp<decltype(l)> o = {l};
      std::string sig = str(tname<TL>::get(), " in-place transpose of ", l.what, " [", n[0], "]");
      c.begin(sig);
      o.l.guards(c.rng);
      std::vector<TL> x = rvals<TL>(c.rng, n[0] * n[0]), want;
      o.l.setup(x);
      for (long i = 0; i < n[0]; ++i) for (long j = 0; j < n[0]; ++j) want.push_back(x[j * n[0] + i]);
      o.go(&o);
      std::string e = o.l.verify(want);
      if (!e.empty()) { c.fail("in-place-transpose", sig + ": " + e); continue;}
      c.ok(sig);
    }
  }
  void operator()(kint<10>) {} // a real part of complex is not one of the supported forms
};
#endif
void vt_main(Ctx &c)
{
  C = &c;
  Left l;
  for_kinds<LLO, LHI>::go(l);
#if PD == 2
  InPlace p; for_kinds<LLO, LHI>::go(p);
#endif
}
