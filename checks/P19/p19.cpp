// Assignment between distributed views: every processor compares every element
// it holds, inside and outside the destination, with the serial assignment.
#include "dist.hpp"
#include <ovxx/strided.hpp>
#ifndef P_RT
#define P_RT P_T
#endif
#ifndef P_REPS
#define P_REPS 10
#endif
using namespace vd;
using vt::Ctx;

static void nap(vt::Rng &mine) { if (mine.coin(1, 4)) usleep(mine.range(0, 700));}
typedef std::function<void(ul const *, ul *)> xlate;

struct Job { Ctx &c; vt::Rng &rng; vt::Rng &mine; std::string lab;};

// the assignment itself, in one of several spellings
template <typename L, typename R> void plain(L l, R r, int) { l = r;}
template <template <typename, typename> class CV, typename L, typename R> void constant(L l, R const &r) { CV<typename R::value_type, typename R::block_type> k(r.block()); l = k;}
template <typename L, typename R> struct Prepared
{
  typedef typename L::block_type LB; typedef typename R::block_type RB;
  static dimension_type const D = L::dim;
  typedef ovxx::parallel::Assignment<D, LB, RB, typename ovxx::parallel::choose_par_assign_impl<D, LB, RB, false>::type> type;
};

template <bool P, typename LR, typename RR, typename L, typename R>
void go(Job &j, char const *op, LR &lr, RR &rr, L l, R r, ul const *shape, xlate fl, xlate fr)
{
  int const D = L::dim;
  bool const PP = P && std::is_same<typename L::value_type, typename R::value_type>::value;
  int rounds = j.rng.range(1, 3); bool prep = PP && j.rng.coin(1, 3);
  std::string lab = str(op, prep ? " prepared x" : " x", rounds, " ", lr.md.lab, " = ", rr.md.lab, " ", j.lab);
  j.c.begin(lab);
  int const up = ovxx::is_complex<typename L::value_type>::value && !ovxx::is_complex<typename R::value_type>::value ? REAL : 0;
  std::string why; bool good = true;
  lr.fill(j.rng);
  std::shared_ptr<std::function<void()> > f(new std::function<void()>([&] { l = r;}));
  std::function<void()> undo = [] {};
  if constexpr (PP)
    if (prep)
    {
      rr.fill(j.rng);
      auto *pa = new typename Prepared<L, R>::type(l, r);
      f.reset(new std::function<void()>([pa] { (*pa)();}));
      undo = [pa] { delete pa;};
    }
  for (int k = 0; k < rounds && good; ++k)
  {
    rr.fill(j.rng);
    if (j.rng.coin(1, 3)) lr.fill(j.rng);
    nap(j.mine);
    (*f)();
    box(shape, D, [&](ul const *i) { ul a[3], b[3]; fl(i, a); fr(i, b); lr.grid.at(LR::D, a) = rr.grid.at(RR::D, b) + up;});
    good = lr.verify(why, "destination") && rr.verify(why, "source");
    j.c.count("assignments");
    if (!good) why += str(" in round ", k);
  }
  undo();
  if (prep && good) { good = lr.verify(why, "destination") && rr.verify(why, "source"); if (!good) why += " after the assignment object was destroyed";}
  ul n = 1; for (int d = 0; d < D; ++d) n *= shape[d];
  j.c.count("elements", n * rounds);
  if (good) j.c.ok(lab); else j.c.fail(str(op, prep ? "-prepared" : "", why[0] == 's' ? "-source" : ""), str(lab, ": ", why));
}
static void same(ul const *i, ul *o) { for (int d = 0; d < 3; ++d) o[d] = i[d];}
static void swap2(ul const *i, ul *o) { o[0] = i[1]; o[1] = i[0];}
struct Dom { ul f[3], s[3], n[3];
  Dom(vt::Rng &r, int D, ul const *root, ul const *len) { for (int d = 0; d < D; ++d) { n[d] = len[d]; ul smax = std::min<ul>(3, len[d] > 1 ? (root[d] - 1) / (len[d] - 1) : 1); s[d] = r.coin(1, 3) ? smax : r.range(1, smax); f[d] = r.range(0, root[d] - 1 - (len[d] - 1) * s[d]); if (r.coin(1, 4)) { f[d] += (len[d] - 1) * s[d]; s[d] = -s[d];}}}
  xlate x() const { Dom c(*this); return [c](ul const *i, ul *o) { for (int d = 0; d < 3; ++d) o[d] = c.f[d] + i[d] * c.s[d];};}
  Domain<1> one(int d) const { return Domain<1>(f[d], s[d], n[d]);}
  std::string lab(int D) const { std::string r; for (int d = 0; d < D; ++d) r += str("(", f[d], ",", long(s[d]), ",", n[d], ")"); return r;}
};
template <dimension_type D> struct MD;
template <> struct MD<1> { static Domain<1> of(Dom const &d) { return d.one(0);}};
template <> struct MD<2> { static Domain<2> of(Dom const &d) { return Domain<2>(d.one(0), d.one(1));}};
template <> struct MD<3> { static Domain<3> of(Dom const &d) { return Domain<3>(d.one(0), d.one(1), d.one(2));}};
static void shape(vt::Rng &r, int D, ul *n)
{
  for (int i = 0; i < D; ++i) n[i] = r.coin(1, 6) ? r.range(1, 3) : r.range(1, D == 1 ? 60 : D == 2 ? 14 : 7);
  // one long dimension: several elements of it stay with every processor
  if (D > 1 && r.coin(1, 3)) { int l = r.range(0, D - 1); for (int i = 0; i < D; ++i) n[i] = i == l ? r.range(6, D == 2 ? 40 : 20) : r.range(1, 3);}
}
static void bigger(vt::Rng &r, int D, ul const *n, ul *m) { int far = r.coin(1, 2) ? r.range(0, D - 1) : -1; for (int i = 0; i < D; ++i) m[i] = i == far ? n[i] * r.range(2, 3) + r.range(0, 2) : n[i] + r.range(0, n[i] + 2);}

template <bool ok> struct Sub
{
  template <typename LW, typename RW> static void go_(Job &, vt::Rng &) {}
  template <typename LW, typename RW> static void left(Job &, vt::Rng &) {}
  template <typename LW, typename RW> static void right(Job &, vt::Rng &) {}
};
template <> struct Sub<true>
{
  template <typename LW, typename RW> static void go_(Job &j, vt::Rng &rng)
  {
    dimension_type const D = LW::dim; ul n[3], a[3], b[3]; shape(rng, D, n); bigger(rng, D, n, a); bigger(rng, D, n, b);
    Root<LW> l(rng, a); Root<RW> r(rng, b); Dom x(rng, D, a, n), y(rng, D, b, n);
    j.lab = x.lab(D) + y.lab(D);
    go<true>(j, "sub=sub", l, r, l.view(MD<D>::of(x)), r.view(MD<D>::of(y)), n, x.x(), y.x());
  }
  template <typename LW, typename RW> static void left(Job &j, vt::Rng &rng)
  {
    dimension_type const D = LW::dim; ul n[3], a[3]; shape(rng, D, n); bigger(rng, D, n, a);
    Root<LW> l(rng, a); Root<RW> r(rng, n); Dom x(rng, D, a, n); j.lab = x.lab(D);
    go<true>(j, "sub=whole", l, r, l.view(MD<D>::of(x)), r.view, n, x.x(), same);
  }
  template <typename LW, typename RW> static void right(Job &j, vt::Rng &rng)
  {
    dimension_type const D = LW::dim; ul n[3], b[3]; shape(rng, D, n); bigger(rng, D, n, b);
    Root<LW> l(rng, n); Root<RW> r(rng, b); Dom y(rng, D, b, n); j.lab = y.lab(D);
    go<true>(j, "whole=sub", l, r, l.view, r.view(MD<D>::of(y)), n, same, y.x());
  }
};
template <typename LW, typename RW> void whole_(Job &j, vt::Rng &rng)
{
  int const D = LW::dim; ul n[3]; shape(rng, D, n);
  Root<LW> l(rng, n); Root<RW> r(rng, n); j.lab = "";
  go<true>(j, "whole", l, r, l.view, r.view, n, same, same);
}
template <typename LW, typename RW> void extras(Job &, vt::Rng &, Domain<1>) {}
template <typename LW, typename RW> void extras(Job &j, vt::Rng &rng, Domain<2>)
{
  ul n[3], t[3]; shape(rng, 2, n); t[0] = n[1]; t[1] = n[0]; j.lab = "";
  switch (rng.range(0, 4))
  {
    case 0: { Root<LW> l(rng, t); Root<RW> r(rng, n); go<false>(j, "transpose=whole", l, r, l.view.transpose(), r.view, n, swap2, same); break;}
    case 1: { Root<LW> l(rng, n); Root<RW> r(rng, t); go<false>(j, "whole=transpose", l, r, l.view, r.view.transpose(), n, same, swap2); break;}
    case 2: { Root<LW> l(rng, t); Root<RW> r(rng, t); go<false>(j, "transpose=transpose", l, r, l.view.transpose(), r.view.transpose(), n, swap2, swap2); break;}
    case 3:
    {
      ul m[3] = { n[0], ul(rng.range(1, 9))}; Root<LW> l(rng, n); Root<RW> r(rng, m); ul a = rng.range(0, n[1] - 1), b = rng.range(0, m[1] - 1); j.lab = str(a, ",", b);
      go<false>(j, "col=col", l, r, l.view.col(a), r.view.col(b), n, [a](ul const *i, ul *o) { o[0] = i[0]; o[1] = a;}, [b](ul const *i, ul *o) { o[0] = i[0]; o[1] = b;});
      break;
    }
    default:
    {
      ul m[3] = { n[1], ul(rng.range(1, 9))}; Root<LW> l(rng, n); Root<RW> r(rng, m); ul a = rng.range(0, n[0] - 1), b = rng.range(0, m[1] - 1); j.lab = str(a, ",", b);
      go<false>(j, "row=col", l, r, l.view.row(a), r.view.col(b), m, [a](ul const *i, ul *o) { o[0] = a; o[1] = i[0];}, [b](ul const *i, ul *o) { o[0] = i[0]; o[1] = b;});
    }
  }
}
template <typename LW, typename RW> void extras(Job &j, vt::Rng &rng, Domain<3>)
{
  ul n[3]; shape(rng, 3, n);
  switch (rng.range(0, 2))
  {
    case 0:
    {
      ul m[3] = { n[1], ul(rng.range(1, 6)), n[2]}; Root<LW> l(rng, n); Root<RW> r(rng, m); ul a = rng.range(0, n[0] - 1), b = rng.range(0, m[1] - 1); j.lab = str(a, ",", b); ul s[2] = { n[1], n[2]};
      go<false>(j, "plane0=plane1", l, r, l.view(a, whole_domain, whole_domain), r.view(whole_domain, b, whole_domain), s, [a](ul const *i, ul *o) { o[0] = a; o[1] = i[0]; o[2] = i[1];}, [b](ul const *i, ul *o) { o[0] = i[0]; o[1] = b; o[2] = i[1];});
      break;
    }
    case 1:
    {
      ul m[3] = { n[0], n[1], ul(rng.range(1, 6))}; Root<LW> l(rng, n); Root<RW> r(rng, m); ul a = rng.range(0, n[2] - 1), b = rng.range(0, m[2] - 1); j.lab = str(a, ",", b); ul s[2] = { n[0], n[1]};
      go<false>(j, "plane2=plane2", l, r, l.view(whole_domain, whole_domain, a), r.view(whole_domain, whole_domain, b), s, [a](ul const *i, ul *o) { o[0] = i[0]; o[1] = i[1]; o[2] = a;}, [b](ul const *i, ul *o) { o[0] = i[0]; o[1] = i[1]; o[2] = b;});
      break;
    }
    default:
    {
      ul m[3] = { n[2], ul(rng.range(1, 6)), ul(rng.range(1, 6))}; Root<LW> l(rng, n); Root<RW> r(rng, m);
      ul a = rng.range(0, n[0] - 1), b = rng.range(0, n[1] - 1), p = rng.range(0, m[1] - 1), q = rng.range(0, m[2] - 1); j.lab = str(a, ",", b, " ", p, ",", q); ul s[1] = { n[2]};
      go<false>(j, "fibre=fibre", l, r, l.view(a, b, whole_domain), r.view(whole_domain, p, q), s, [a, b](ul const *i, ul *o) { o[0] = a; o[1] = b; o[2] = i[0];}, [p, q](ul const *i, ul *o) { o[0] = i[0]; o[1] = p; o[2] = q;});
    }
  }
}

template <typename LW, typename RW> void pair_(Ctx &c)
{
  bool const lb = Mk<typename LW::block_type::map_type>::blocks, rb = Mk<typename RW::block_type::map_type>::blocks;
  vt::Rng mine(c.seed * 77 + c.rank * 1013 + 5);
  for (int k = 0; k < c.n(P_REPS); ++k)
  {
    vt::Rng rng(c.rng.next()); Job j = { c, rng, mine, ""};
    whole_<LW, RW>(j, rng);
#ifndef P_WHOLE
    Sub<lb && rb>::template go_<LW, RW>(j, rng);
    Sub<lb>::template left<LW, RW>(j, rng);
    Sub<rb>::template right<LW, RW>(j, rng);
    extras<LW, RW>(j, rng, Domain<LW::dim>());
    extras<LW, RW>(j, rng, Domain<LW::dim>());
#endif
  }
}
// a vector against a row or column of a matrix (P_D 2) or a fibre of a tensor (P_D 3)
template <typename MW, typename VW> void mixed(Job &j, vt::Rng &rng, Domain<2>)
{
  ul n[3]; shape(rng, 2, n); ul a = rng.range(0, n[0] - 1), b = rng.range(0, n[1] - 1); j.lab = str(a, ",", b);
  xlate row = [a](ul const *i, ul *o) { o[0] = a; o[1] = i[0];}, col = [b](ul const *i, ul *o) { o[0] = i[0]; o[1] = b;};
  Root<MW> m(rng, n);
  switch (rng.range(0, 3))
  {
    case 0: { ul s[1] = { n[1]}; Root<VW> v(rng, s); go<true>(j, "row=vector", m, v, m.view.row(a), v.view, s, row, same); break;}
    case 1: { ul s[1] = { n[0]}; Root<VW> v(rng, s); go<true>(j, "col=vector", m, v, m.view.col(b), v.view, s, col, same); break;}
    case 2: { ul s[1] = { n[1]}; Root<VW> v(rng, s); go<true>(j, "vector=row", v, m, v.view, m.view.row(a), s, same, row); break;}
    default: { ul s[1] = { n[0]}; Root<VW> v(rng, s); go<true>(j, "vector=col", v, m, v.view, m.view.col(b), s, same, col);}
  }
}
template <typename MW, typename VW> void mixed(Job &j, vt::Rng &rng, Domain<3>)
{
  ul n[3]; shape(rng, 3, n); ul a = rng.range(0, n[0] - 1), b = rng.range(0, n[1] - 1), c = rng.range(0, n[2] - 1); j.lab = str(a, ",", b, ",", c);
  xlate f0 = [b, c](ul const *i, ul *o) { o[0] = i[0]; o[1] = b; o[2] = c;}, f1 = [a, c](ul const *i, ul *o) { o[0] = a; o[1] = i[0]; o[2] = c;}, f2 = [a, b](ul const *i, ul *o) { o[0] = a; o[1] = b; o[2] = i[0];};
  Root<MW> m(rng, n);
  switch (rng.range(0, 3))
  {
    case 0: { ul s[1] = { n[0]}; Root<VW> v(rng, s); go<true>(j, "fibre0=vector", m, v, m.view(whole_domain, b, c), v.view, s, f0, same); break;}
    case 1: { ul s[1] = { n[1]}; Root<VW> v(rng, s); go<true>(j, "fibre1=vector", m, v, m.view(a, whole_domain, c), v.view, s, f1, same); break;}
    case 2: { ul s[1] = { n[2]}; Root<VW> v(rng, s); go<true>(j, "fibre2=vector", m, v, m.view(a, b, whole_domain), v.view, s, f2, same); break;}
    default: { ul s[1] = { n[1]}; Root<VW> v(rng, s); go<true>(j, "vector=fibre1", v, m, v.view, m.view(a, whole_domain, c), s, same, f1);}
  }
}
#ifndef P_LB
#define P_LB(D, T, O, M) Dense<D, T, O, M>
#endif
#ifndef P_RB
#define P_RB P_LB
#endif
#ifdef P_MIXED
template <typename LM, typename RM> void types(Ctx &c)
{
  typedef typename V<P_D>::of<P_T, P_LB(P_D, P_T, P_LO, LM) >::type MW;
  typedef typename V<1>::of<P_T, P_RB(1, P_T, row1_type, RM) >::type VW;
  vt::Rng mine(c.seed * 77 + c.rank * 1013 + 5);
  for (int k = 0; k < c.n(P_REPS) * 3; ++k) { vt::Rng rng(c.rng.next()); Job j = { c, rng, mine, ""}; mixed<MW, VW>(j, rng, Domain<P_D>());}
}
#else
template <typename LM, typename RM> void types(Ctx &c)
{
  typedef typename V<P_D>::of<P_T, P_LB(P_D, P_T, P_LO, LM) >::type LW;
  typedef typename V<P_D>::of<P_RT, P_RB(P_D, P_RT, P_RO, RM) >::type RW;
  pair_<LW, RW>(c);
}
#endif
#define M_W Map<Whole_dist, Whole_dist, Whole_dist>
#define M_B Map<Block_dist, Whole_dist, Whole_dist>
#define M_C Map<Cyclic_dist, Whole_dist, Whole_dist>
#define M_BB Map<Block_dist, Block_dist, Whole_dist>
#define M_WC Map<Whole_dist, Cyclic_dist, Whole_dist>
#define M_WB Map<Whole_dist, Block_dist, Whole_dist>
#define M_CC Map<Cyclic_dist, Cyclic_dist, Whole_dist>
#define M_CB Map<Cyclic_dist, Block_dist, Whole_dist>
#define M_BBB Map<Block_dist, Block_dist, Block_dist>
#define M_CWB Map<Cyclic_dist, Whole_dist, Block_dist>
#define M_WBC Map<Whole_dist, Block_dist, Cyclic_dist>
#define M_R1 Replicated_map<1>
#define M_R Replicated_map<P_D>
void vt_main(Ctx &c)
{
#define X(R) types<P_LM, R>(c);
  P_RMS
#undef X
}
#include "main.hpp"
