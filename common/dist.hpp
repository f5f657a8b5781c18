// An independent account of block and cyclic distributions: explicit element
// lists per dimension and subblock, and the processors that hold each subblock.
#ifndef VT_DIST_HPP
#define VT_DIST_HPP
#include "vt.hpp"
#include <vsip/initfin.hpp>
#include <vsip/support.hpp>
#include <vsip/map.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/parallel.hpp>
#include <functional>
#include <mpi.h>
namespace vd
{
using namespace vsip;
using vt::str;
typedef unsigned long ul;

struct MDim
{
  int kind; ul n, k, c;                        // 0 whole 1 block 2 cyclic
  std::vector<std::vector<ul> > el;            // el[sb][local] = global
  void build()
  {
    el.assign(k, std::vector<ul>());
    if (kind == 2)
      for (ul ch = 0, f = 0; f < n; ++ch, f += c)
        for (ul i = 0; i < std::min(c, n - f); ++i) el[ch % k].push_back(f + i);
    else
      for (ul s = 0, f = 0; s < k; ++s)
      {
        ul len = 0; for (ul i = s; i < n; i += k) ++len;   // as equal as can be, larger ones first
        for (ul i = 0; i < len; ++i) el[s].push_back(f + i);
        f += len;
      }
  }
};
struct Model
{
  int D; MDim d[3];
  std::vector<std::vector<ul> > proc;          // subblock -> processors
  std::string lab;
  ul nsb() const { ul r = 1; for (int i = 0; i < D; ++i) r *= d[i].k; return r;}
  void split(ul sb, ul *s) const { for (int i = D; i-- > 0;) { s[i] = sb % d[i].k; sb /= d[i].k;}}
  ul sbof(ul me) const { for (ul s = 0; s < proc.size(); ++s) for (ul p : proc[s]) if (p == me) return s; return no_subblock;}
  ul size() const { ul r = 1; for (int i = 0; i < D; ++i) r *= d[i].n; return r;}
};
template <typename X> struct Kind;
template <> struct Kind<Whole_dist> { static int const v = 0; static Whole_dist mk(ul, ul) { return Whole_dist();}};
template <> struct Kind<Block_dist> { static int const v = 1; static Block_dist mk(ul k, ul) { return Block_dist(k);}};
template <> struct Kind<Cyclic_dist> { static int const v = 2; static Cyclic_dist mk(ul k, ul c) { return Cyclic_dist(k, c);}};

// Mk<Map>::make: a random map of the type over the processors of this program
template <typename M> struct Mk;
template <typename D0, typename D1, typename D2> struct Mk<Map<D0, D1, D2> >
{
  typedef Map<D0, D1, D2> map_t;
  static bool const blocks = Kind<D0>::v != 2 && Kind<D1>::v != 2 && Kind<D2>::v != 2;
  static map_t make(vt::Rng &rng, int D, ul const *n, Model &md, ul np = num_processors())
  {
    int const kind[3] = { Kind<D0>::v, Kind<D1>::v, Kind<D2>::v};
    md.D = D; ul room = np; md.lab = "";
    bool many = rng.coin(1, 2);                // use as many processors as fit
    for (int i = 0; i < D; ++i)
    {
      MDim &x = md.d[i];
      x.kind = kind[i]; x.n = n[i];
      x.k = x.kind == 0 ? 1 : many && (i == D - 1 || rng.coin()) ? room : rng.range(1, room);
      x.c = x.kind == 2 ? rng.range(1, rng.coin() ? 3 : x.n + 2) : 0;
      room /= x.k; if (!room) room = 1;
      x.build();
      md.lab += str("WBC"[x.kind], x.n, "/", x.k, x.kind == 2 ? str(":", x.c) : "", " ");
    }
    ul nsb = md.nsb();
    std::vector<ul> all; for (ul i = 0; i < np; ++i) all.push_back(i);
    bool dflt = rng.coin(1, 3);
    if (!dflt) for (ul i = np; i-- > 1;) std::swap(all[i], all[rng.range(0, i)]);
    md.proc.clear(); md.lab += "on";
    for (ul s = 0; s < nsb; ++s) { md.proc.push_back(std::vector<ul>(1, all[s])); md.lab += str(":", all[s]);}
    D0 d0 = Kind<D0>::mk(md.d[0].k, md.d[0].c); D1 d1 = Kind<D1>::mk(D > 1 ? md.d[1].k : 1, D > 1 ? md.d[1].c : 1); D2 d2 = Kind<D2>::mk(D > 2 ? md.d[2].k : 1, D > 2 ? md.d[2].c : 1);
    if (dflt) return map_t(d0, d1, d2);
    Vector<processor_type> pv(nsb); for (ul i = 0; i < nsb; ++i) pv.put(i, all[i]);
    return map_t(pv, d0, d1, d2);
  }
};
template <dimension_type DD> struct Mk<Replicated_map<DD> >
{
  typedef Replicated_map<DD> map_t;
  static bool const blocks = true;
  static map_t make(vt::Rng &rng, int D, ul const *n, Model &md, ul np = num_processors())
  {
    md.D = D; md.lab = "R";
    for (int i = 0; i < D; ++i) { MDim &x = md.d[i]; x.kind = 0; x.n = n[i]; x.k = 1; x.c = 0; x.build(); md.lab += str(x.n, " ");}
    std::vector<ul> all; for (ul i = 0; i < np; ++i) all.push_back(i);
    bool dflt = rng.coin(1, 2);
    if (!dflt) for (ul i = np; i-- > 1;) std::swap(all[i], all[rng.range(0, i)]);
    ul k = dflt ? np : rng.range(1, np);
    md.proc.assign(1, std::vector<ul>(all.begin(), all.begin() + k));
    md.lab += "on"; for (ul i = 0; i < k; ++i) md.lab += str(":", all[i]);
    if (dflt) return map_t();
    Vector<processor_type> pv(k); for (ul i = 0; i < k; ++i) pv.put(i, all[i]);
    return map_t(pv);
  }
};

// enumerate an index box
template <typename F> void box(ul const *n, int D, F f)
{
  ul i[3] = {0, 0, 0};
  for (int d = 0; d < D; ++d) if (!n[d]) return;
  for (;;)
  {
    f(i);
    int d = D - 1;
    while (d >= 0 && ++i[d] == n[d]) { i[d] = 0; --d;}
    if (d < 0) return;
  }
}
template <dimension_type D> struct V;
template <> struct V<1> { template <typename T, typename B> struct of { typedef Vector<T, B> type;}; template <typename W, typename M> static W mk(ul const *n, M const &m) { return W(n[0], m);}};
template <> struct V<2> { template <typename T, typename B> struct of { typedef Matrix<T, B> type;}; template <typename W, typename M> static W mk(ul const *n, M const &m) { return W(n[0], n[1], m);}};
template <> struct V<3> { template <typename T, typename B> struct of { typedef Tensor<T, B> type;}; template <typename W, typename M> static W mk(ul const *n, M const &m) { return W(n[0], n[1], n[2], m);}};
template <typename T, typename B> T lget(const_Vector<T, B> v, ul const *i) { return v.get(i[0]);}
template <typename T, typename B> T lget(const_Matrix<T, B> v, ul const *i) { return v.get(i[0], i[1]);}
template <typename T, typename B> T lget(const_Tensor<T, B> v, ul const *i) { return v.get(i[0], i[1], i[2]);}
template <typename T, typename B> void lput(Vector<T, B> v, ul const *i, T x) { v.put(i[0], x);}
template <typename T, typename B> void lput(Matrix<T, B> v, ul const *i, T x) { v.put(i[0], i[1], x);}
template <typename T, typename B> void lput(Tensor<T, B> v, ul const *i, T x) { v.put(i[0], i[1], i[2], x);}

template <typename T> struct Conv { static T of(int v) { return T(v);}};
template <> struct Conv<bool> { static bool of(int v) { return v & 1;}};
int const REAL = 1 << 20;                      // added to the number of a real value held by a complex view
template <typename T> struct Conv<complex<T> > { static complex<T> of(int v) { return v > REAL / 2 ? complex<T>(T(v - REAL), T()) : complex<T>(T(v), T(1 - 3 * v));}};

struct Grid
{
  ul n[3] = {1, 1, 1}; std::vector<int> a;
  Grid() {}
  Grid(int D, ul const *m) { for (int i = 0; i < D; ++i) n[i] = m[i]; a.assign(n[0] * n[1] * n[2], 0);}
  int &at(ul i, ul j = 0, ul k = 0) { return a[(i * n[1] + j) * n[2] + k];}
  int &at(int D, ul const *g) { return at(g[0], D > 1 ? g[1] : 0, D > 2 ? g[2] : 0);}
};
// visit the elements this processor holds, with local and global index
template <typename F> void owned(Model const &md, F f)
{
  ul sb = md.sbof(local_processor());
  if (sb == no_subblock) return;
  ul s[3], len[3]; md.split(sb, s);
  for (int i = 0; i < md.D; ++i) len[i] = md.d[i].el[s[i]].size();
  box(len, md.D, [&](ul const *l) { ul g[3]; for (int i = 0; i < md.D; ++i) g[i] = md.d[i].el[s[i]][l[i]]; f(l, g);});
}
// a distributed root view with its model
template <typename W> struct Root
{
  typedef typename W::value_type T;
  typedef typename W::block_type::map_type map_t;
  static int const D = W::dim;
  Model md; map_t map; W view; Grid grid;
  Root(vt::Rng &rng, ul const *n) : map(Mk<map_t>::make(rng, D, n, md)), view(V<W::dim>::template mk<W>(n, map)), grid(D, n) {}
  void fill(vt::Rng &rng)
  {
    for (int &x : grid.a) x = int(rng.range(-2000, 2000));
    typename W::local_type l = view.local();
    owned(md, [&](ul const *i, ul const *g) { lput(l, i, Conv<T>::of(grid.at(D, g)));});
  }
  bool verify(std::string &why, char const *what)
  {
    typename W::local_type l = view.local();
    bool good = true; ul cnt = 0;
    owned(md, [&](ul const *i, ul const *g) { ++cnt;
      T got = lget(l, i), want = Conv<T>::of(grid.at(D, g));
      if (got == want) return;
      if (good) why = str(what, " at ", g[0], D > 1 ? str(",", g[1]) : "", D > 2 ? str(",", g[2]) : "", " holds ", got, " expected ", want);
      good = false;});
    return good;
  }
};
}
#endif
