// Maps: every query of a map and of a view that carries it is compared with an
// independent account of the distribution (explicit element lists per dimension).
#include "vt.hpp"
#include <vsip/initfin.hpp>
#include <vsip/support.hpp>
#include <vsip/map.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/parallel.hpp>
#include <mpi.h>
#ifndef P_D
#define P_D 1
#endif
#ifndef P_LO
#define P_LO 0
#define P_HI 100
#endif
#ifndef P_REPS
#define P_REPS 40
#endif
using namespace vsip;
using vt::Ctx; using vt::str;
typedef unsigned long ul;

// ---- the model -------------------------------------------------------------
struct MDim
{
  int kind; ul n, k, c;                        // 0 whole 1 block 2 cyclic
  std::vector<std::vector<ul> > el;            // el[sb][local] = global
  std::vector<std::vector<std::pair<ul, ul> > > pat; // [sb][patch] = (first global, length)
  void build()
  {
    el.assign(k, std::vector<ul>()); pat.assign(k, std::vector<std::pair<ul, ul> >());
    if (kind == 2)
      for (ul ch = 0, f = 0; f < n; ++ch, f += c)
      {
        ul len = std::min(c, n - f);
        pat[ch % k].push_back(std::make_pair(f, len));
        for (ul i = 0; i < len; ++i) el[ch % k].push_back(f + i);
      }
    else
    {
      ul f = 0;
      for (ul s = 0; s < k; ++s)
      {
        ul len = 0; for (ul i = s; i < n; i += k) ++len;   // as equal as can be, larger ones first
        pat[s].push_back(std::make_pair(f, len));
        for (ul i = 0; i < len; ++i) el[s].push_back(f + i);
        f += len;
      }
    }
  }
  // owner, local, patch of a global index
  void find(ul g, ul &s, ul &l, ul &p) const
  {
    for (s = 0; s < k; ++s)
      for (l = 0; l < el[s].size(); ++l)
        if (el[s][l] == g)
        {
          for (p = 0; p < pat[s].size(); ++p)
            if (g >= pat[s][p].first && g < pat[s][p].first + pat[s][p].second) return;
        }
    s = l = p = 999999;
  }
};
struct Model
{
  int D; MDim d[3];
  std::vector<ul> proc;                        // subblock -> processor
  ul nsb() const { ul r = 1; for (int i = 0; i < D; ++i) r *= d[i].k; return r;}
  void split(ul sb, ul *s) const { for (int i = D; i-- > 0;) { s[i] = sb % d[i].k; sb /= d[i].k;}}
  ul npat(ul sb) const { ul s[3]; split(sb, s); ul r = 1; for (int i = 0; i < D; ++i) r *= d[i].pat[s[i]].size(); return r;}
  void psplit(ul sb, ul p, ul *s, ul *q) const
  { split(sb, s); for (int i = D; i-- > 0;) { ul m = d[i].pat[s[i]].size(); q[i] = p % m; p /= m;}}
};

template <dimension_type D> struct V;
template <> struct V<1> { template <typename T, typename B> struct of { typedef Vector<T, B> type;};};
template <> struct V<2> { template <typename T, typename B> struct of { typedef Matrix<T, B> type;};};
template <> struct V<3> { template <typename T, typename B> struct of { typedef Tensor<T, B> type;};};
template <dimension_type D> Domain<D> mkdom(ul const *n);
template <> Domain<1> mkdom<1>(ul const *n) { return Domain<1>(n[0]);}
template <> Domain<2> mkdom<2>(ul const *n) { return Domain<2>(n[0], n[1]);}
template <> Domain<3> mkdom<3>(ul const *n) { return Domain<3>(n[0], n[1], n[2]);}
template <dimension_type D> Index<D> mkidx(ul const *n);
template <> Index<1> mkidx<1>(ul const *n) { return Index<1>(n[0]);}
template <> Index<2> mkidx<2>(ul const *n) { return Index<2>(n[0], n[1]);}
template <> Index<3> mkidx<3>(ul const *n) { return Index<3>(n[0], n[1], n[2]);}
Domain<1> const &dim(Domain<1> const &d, int) { return d;}
Domain<1> const &dim(Domain<2> const &d, int i) { return d[i];}
Domain<1> const &dim(Domain<3> const &d, int i) { return d[i];}
template <typename B> void bput(B &b, Index<1> const &i, int v) { b.put(i[0], v);}
template <typename B> void bput(B &b, Index<2> const &i, int v) { b.put(i[0], i[1], v);}
template <typename B> void bput(B &b, Index<3> const &i, int v) { b.put(i[0], i[1], i[2], v);}
template <typename B> int lget(const_Vector<int, B> v, ul const *i) { return v.get(i[0]);}
template <typename B> int lget(const_Matrix<int, B> v, ul const *i) { return v.get(i[0], i[1]);}
template <typename B> int lget(const_Tensor<int, B> v, ul const *i) { return v.get(i[0], i[1], i[2]);}

static int val(ul const *g, int D) { int r = 7; for (int i = 0; i < D; ++i) r = r * 131 + int(g[i]); return r;}
// enumerate an index box
template <typename F> void box(ul const *n, int D, F f)
{
  ul i[3] = {0, 0, 0};
  for (int d = 0; d < D; ++d) if (!n[d]) return;
  for (;;)
  {
    f(i);
    int d = D - 1;
    while (d >= 0 && ++i[d] == n[d]) { i[d] = 0; --d;}
    if (d < 0) return;
  }
}

struct Rep   // collects the first disagreement of a case
{
  std::string key, det; ul checks = 0;
  bool is(bool ok, char const *k, std::string const &d) { ++checks; if (!ok && key.empty()) { key = k; det = d;} return ok;}
  template <typename A, typename B> bool eq(A const &a, B const &b, char const *k, std::string const &d)
  { return is(ul(a) == ul(b), k, str(d, ": ", ul(a), " expected ", ul(b)));}
};

template <typename M> void check_map(Rep &r, M const &m, Model const &md, ul me, std::vector<ul> const &procs, int const *kd)
{
  ul n = md.nsb();
  r.eq(m.num_subblocks(), n, "num_subblocks", "map");
  r.eq(m.num_processors(), n, "num_processors", "map");
  for (int d = 0; d < 3; ++d)
  {
    int kind = kd[d]; ul k = d < md.D ? md.d[d].k : 1;
    r.eq(m.distribution(d), kind == 0 ? whole : kind == 1 ? block : cyclic, "distribution", str("dim ", d));
    r.eq(m.num_subblocks(d), k, "num_subblocks-dim", str("dim ", d));
    r.eq(m.cyclic_contiguity(d), kind == 2 ? d < md.D ? md.d[d].c : 1 : 0, "cyclic_contiguity", str("dim ", d));
  }
  const_Vector<processor_type> ps = m.processor_set();
  if (r.eq(ps.size(), n, "processor_set-size", "map"))
    for (ul i = 0; i < n; ++i) r.eq(ps.get(i), md.proc[i], "processor_set", str("entry ", i));
  ul mine = no_subblock;
  for (ul s = 0; s < n; ++s)
  {
    if (md.proc[s] == me) mine = s;
    ul cnt = 0;
    for (typename M::processor_iterator i = m.processor_begin(s); i != m.processor_end(s) && cnt < 9; ++i, ++cnt)
      r.eq(*i, md.proc[s], "processor-of-subblock", str("subblock ", s));
    r.eq(cnt, 1, "processors-per-subblock", str("subblock ", s));
  }
  for (ul q : procs)
  {
    ul want = no_subblock;
    for (ul s = 0; s < n; ++s) if (md.proc[s] == q) want = s;
    r.eq(m.subblock(q), want, "subblock-of-processor", str("processor ", q));
  }
  r.eq(m.subblock(), mine, "local-subblock", "map");
}

// a view against a model whose element lists may be those of a subview
template <dimension_type D, typename W> void check_view(Rep &r, W const &v, Model const &md, ul me)
{
  ul n[3]; for (int i = 0; i < int(D); ++i) n[i] = md.d[i].n;
  ul nsb = md.nsb();
  r.eq(num_subblocks(v), nsb, "view-num_subblocks", "");
  ul mine = no_subblock;
  std::map<ul, int> count;
  for (ul sb = 0; sb < nsb; ++sb)
  {
    if (md.proc[sb] == me) mine = sb;
    r.eq(subblock(v, processor_type(md.proc[sb])), sb, "view-subblock-of-processor", str("sb ", sb));
    ul s[3], q[3]; md.split(sb, s);
    Domain<D> sd = subblock_domain(v, sb);
    for (int i = 0; i < int(D); ++i)
      r.is(dim(sd, i).first() == 0 && dim(sd, i).stride() == 1 && dim(sd, i).length() == md.d[i].el[s[i]].size(), "subblock_domain",
           str("sb ", sb, " dim ", i, " length ", dim(sd, i).length(), " expected ", md.d[i].el[s[i]].size()));
    ul np = md.npat(sb);
    r.eq(num_patches(v, sb), np, "num_patches", str("sb ", sb));
    for (ul p = 0; p < np; ++p)
    {
      Domain<D> gd = global_domain(v, sb, p), ld = local_domain(v, sb, p);
      md.psplit(sb, p, s, q);
      ul len[3]; bool ok = true;
      for (int i = 0; i < int(D); ++i)
      {
        std::pair<ul, ul> w = md.d[i].pat[s[i]][q[i]];
        ul lf = 0; for (ul t = 0; t < q[i]; ++t) lf += md.d[i].pat[s[i]][t].second;
        len[i] = w.second;
        ok &= r.is(dim(gd, i).length() == w.second && (!w.second || (dim(gd, i).first() == w.first && (w.second < 2 || dim(gd, i).stride() == 1))), "global_domain",
                   str("sb ", sb, " patch ", p, " dim ", i, " (", dim(gd, i).first(), ",", dim(gd, i).stride(), ",", dim(gd, i).length(), ") expected first ", w.first, " length ", w.second));
        ok &= r.is(dim(ld, i).length() == w.second && (!w.second || (dim(ld, i).first() == lf && (w.second < 2 || dim(ld, i).stride() == 1))), "local_domain",
                   str("sb ", sb, " patch ", p, " dim ", i, " (", dim(ld, i).first(), ",", dim(ld, i).stride(), ",", dim(ld, i).length(), ") expected first ", lf, " length ", w.second));
      }
      if (ok) box(len, D, [&](ul const *i) {
        ul g[3], key = 0; for (int d = 0; d < int(D); ++d) { g[d] = dim(gd, d).impl_nth(i[d]); key = key * 1000 + g[d];} ++count[key];});
    }
  }
  box(n, D, [&](ul const *g) {
    ul key = 0; for (int d = 0; d < int(D); ++d) key = key * 1000 + g[d];
    r.eq(count[key], 1, "patches-cover-once", str("index key ", key));});
  r.eq(subblock(v), mine, "view-local-subblock", "");
  // the implicit forms speak of the local subblock
  {
    Domain<D> sd = subblock_domain(v);
    ul s[3] = {0, 0, 0}; if (mine != no_subblock) md.split(mine, s);
    for (int i = 0; i < int(D); ++i)
      r.eq(dim(sd, i).length(), mine == no_subblock ? 0 : md.d[i].el[s[i]].size(), "subblock_domain-local", str("dim ", i));
    ul np = mine == no_subblock ? 0 : md.npat(mine);
    r.eq(num_patches(v), np, "num_patches-local", "");
    for (ul p = 0; p < np; ++p)
      r.is(local_domain(v, p) == local_domain(v, mine, p) && global_domain(v, p) == global_domain(v, mine, p), "local-forms", str("patch ", p));
  }
}
template <dimension_type D, typename W> void check_index(Rep &r, W const &v, Model const &md, ul me)
{
  ul n[3]; for (int i = 0; i < int(D); ++i) n[i] = md.d[i].n;
  ul mine = no_subblock;
  for (ul s = 0; s < md.nsb(); ++s) if (md.proc[s] == me) mine = s;
  box(n, D, [&](ul const *g) {
    ul s[3], l[3], p[3], sb = 0, pp = 0;
    for (int i = 0; i < int(D); ++i) md.d[i].find(g[i], s[i], l[i], p[i]);
    for (int i = 0; i < int(D); ++i) { sb = sb * md.d[i].k + s[i]; pp = pp * md.d[i].pat[s[i]].size() + p[i];}
    std::string at = str("global index ", g[0], D > 1 ? str(",", g[1]) : "", D > 2 ? str(",", g[2]) : "");
    Index<D> gi = mkidx<D>(g), li = mkidx<D>(l);
    r.eq(subblock_from_global_index(v, gi), sb, "subblock_from_global_index", at);
    r.eq(patch_from_global_index(v, gi), pp, "patch_from_global_index", at);
    Index<D> got = local_from_global_index(v, gi);
    Index<D> back = global_from_local_index(v, sb, li);
    for (int i = 0; i < int(D); ++i)
    {
      r.eq(got[i], l[i], "local_from_global_index", str(at, " dim ", i));
      r.eq(local_from_global_index(v, dimension_type(i), index_type(g[i])), l[i], "local_from_global_index-dim", str(at, " dim ", i));
      r.eq(back[i], g[i], "global_from_local_index", str(at, " dim ", i));
      r.eq(global_from_local_index(v, dimension_type(i), index_type(sb), index_type(l[i])), g[i], "global_from_local_index-dim", str(at, " dim ", i));
      if (sb == mine) r.eq(global_from_local_index(v, dimension_type(i), index_type(l[i])), g[i], "global_from_local_index-dim-local", str(at, " dim ", i));
    }
    if (sb == mine)
    {
      Index<D> b2 = global_from_local_index(v, li);
      for (int i = 0; i < int(D); ++i) r.eq(b2[i], g[i], "global_from_local_index-local", str(at, " dim ", i));
    }
  });
}
// the local view holds exactly the local elements; 'to' maps an index of v to the parent index whose value it holds
template <dimension_type D, typename W, typename F> void check_local(Rep &r, W const &v, Model const &md, ul me, F to, char const *what)
{
  ul mine = no_subblock;
  for (ul s = 0; s < md.nsb(); ++s) if (md.proc[s] == me) mine = s;
  if (mine == no_subblock)
  {
    if (what[0] == 'r') r.eq(v.local().size(), 0, "local-size-elsewhere", what);
    return;
  }
  ul s[3], n[3]; md.split(mine, s);
  bool ok = true;
  for (int i = 0; i < int(D); ++i) { n[i] = md.d[i].el[s[i]].size(); ok &= r.eq(v.local().size(i), n[i], "local-size", str(what, " dim ", i));}
  if (ok) box(n, D, [&](ul const *l) {
    ul g[3]; for (int i = 0; i < int(D); ++i) g[i] = md.d[i].el[s[i]][l[i]];
    r.eq(lget(v.local(), l), unsigned(to(g)), "local-value", str(what, " local ", l[0], D > 1 ? str(",", l[1]) : "", D > 2 ? str(",", l[2]) : ""));});
}

// ---- subviews of a view with a map --------------------------------------------
// restriction of one dimension to the elements first+i*stride (block/whole only)
static MDim restrict(MDim const &a, ul f, ul st, ul len, std::vector<bool> &keep)
{
  MDim r; r.kind = 3; r.n = len; r.k = 0; r.c = 0; keep.assign(a.k, false);
  for (ul s = 0; s < a.k; ++s)
  {
    std::vector<ul> e;
    for (ul i = 0; i < len; ++i) for (ul x : a.el[s]) if (x == f + i * st) e.push_back(i);
    keep[s] = !e.empty();
    if (e.empty()) continue;
    r.el.push_back(e); r.pat.push_back(std::vector<std::pair<ul, ul> >(1, std::make_pair(e[0], ul(e.size())))); ++r.k;
  }
  return r;
}
template <dimension_type D> Domain<D> sdom(ul const *f, ul const *st, ul const *n);
template <> Domain<1> sdom<1>(ul const *f, ul const *st, ul const *n) { return Domain<1>(f[0], st[0], n[0]);}
template <> Domain<2> sdom<2>(ul const *f, ul const *st, ul const *n) { return Domain<2>(Domain<1>(f[0], st[0], n[0]), Domain<1>(f[1], st[1], n[1]));}
template <> Domain<3> sdom<3>(ul const *f, ul const *st, ul const *n)
{ return Domain<3>(Domain<1>(f[0], st[0], n[0]), Domain<1>(f[1], st[1], n[1]), Domain<1>(f[2], st[2], n[2]));}

template <dimension_type D, typename W, bool B> struct Sub { static void go(Rep &, W, Model const &, ul, vt::Rng &, std::string &) {}};
template <dimension_type D, typename W> struct Sub<D, W, true>
{
  static void go(Rep &r, W v, Model const &md, ul me, vt::Rng &rng, std::string &lab)
  {
    ul f[3], st[3], n[3]; Model sm; sm.D = D;
    std::vector<bool> keep[3];
    for (int i = 0; i < int(D); ++i)
    {
      ul N = md.d[i].n; st[i] = rng.range(1, std::min<long>(3, N)); f[i] = rng.range(0, N - 1);
      n[i] = rng.range(1, (N - 1 - f[i]) / st[i] + 1);
      if (rng.coin(1, 6)) { f[i] = 0; st[i] = 1; n[i] = N;}
      else if (rng.coin(1, 4)) { f[i] += (n[i] - 1) * st[i]; st[i] = -st[i];}
      sm.d[i] = restrict(md.d[i], f[i], st[i], n[i], keep[i]);
    }
    for (ul sb = 0; sb < md.nsb(); ++sb)
    {
      ul s[3]; md.split(sb, s); bool k = true;
      for (int i = 0; i < int(D); ++i) k &= keep[i][s[i]];
      if (k) sm.proc.push_back(md.proc[sb]);
    }
    for (int i = 0; i < int(D); ++i) lab += str(" sub[", f[i], ":", long(st[i]), ":", n[i], "]");
    check_view<D>(r, v(sdom<D>(f, st, n)), sm, me);
    check_local<D>(r, v(sdom<D>(f, st, n)), sm, me, [&](ul const *g) {
      ul h[3]; for (int i = 0; i < int(D); ++i) h[i] = f[i] + g[i] * st[i]; return val(h, D);}, "subdomain");
  }
};
// fix dimension a of md at index i
static Model slice(Model const &md, int a, ul i)
{
  Model r; r.D = md.D - 1;
  for (int d = 0, e = 0; d < md.D; ++d) if (d != a) r.d[e++] = md.d[d];
  ul so, l, p; md.d[a].find(i, so, l, p);
  for (ul sb = 0; sb < md.nsb(); ++sb) { ul s[3]; md.split(sb, s); if (s[a] == so) r.proc.push_back(md.proc[sb]);}
  return r;
}
template <int N, typename W> void one_slice(Rep &r, W v, Model const &md, int a, ul i, ul me, std::string &lab)
{
  Model sm = slice(md, a, i);
  lab += str(" slice", a, "=", i);
  check_view<N>(r, v, sm, me);
  check_index<N>(r, v, sm, me);
  check_local<N>(r, v, sm, me, [&](ul const *g) { ul h[3]; for (int d = 0, e = 0; d < md.D; ++d) h[d] = d == a ? i : g[e++]; return val(h, md.D);}, "slice");
}
template <typename W> void one_fibre(Rep &r, W v, Model const &md, int a, int b, ul i, ul j, ul me, std::string &lab)
{ // a < b fixed
  Model sm = slice(slice(md, b, j), a, i);
  lab += str(" fibre", a, b, "=", i, ",", j);
  check_view<1>(r, v, sm, me);
  check_index<1>(r, v, sm, me);
  check_local<1>(r, v, sm, me, [&](ul const *g) { ul h[3]; for (int d = 0; d < 3; ++d) h[d] = d == a ? i : d == b ? j : g[0]; return val(h, 3);}, "fibre");
}
template <typename B> void slices(Rep &, Vector<int, B>, Model const &, ul, vt::Rng &, std::string &) {}
template <typename B> void slices(Rep &r, Matrix<int, B> v, Model const &md, ul me, vt::Rng &rng, std::string &lab)
{
  ul i = rng.range(0, md.d[0].n - 1), j = rng.range(0, md.d[1].n - 1);
  switch (rng.range(0, 2))
  {
    case 0: one_slice<1>(r, v.row(i), md, 0, i, me, lab); break;
    case 1: one_slice<1>(r, v.col(j), md, 1, j, me, lab); break;
    default:
    {
      Model t = md; std::swap(t.d[0], t.d[1]);
      // numbering of subblocks is that of the parent: compare processor by processor
      lab += " transpose";
      for (int i = 0; i < 2; ++i)
      {
        r.eq(v.transpose().block().map().num_subblocks(i), md.d[1 - i].k, "transpose-num_subblocks-dim", str(i));
        r.eq(v.transpose().block().map().distribution(i), v.block().map().distribution(1 - i), "transpose-distribution", str(i));
        r.eq(v.transpose().block().map().cyclic_contiguity(i), v.block().map().cyclic_contiguity(1 - i), "transpose-contiguity", str(i));
      }
      r.eq(num_subblocks(v.transpose()), md.nsb(), "transpose-num_subblocks", "");
      {
        ul mine = no_subblock; for (ul sb = 0; sb < md.nsb(); ++sb) if (md.proc[sb] == me) mine = sb;
        ul s[3] = {0, 0, 0}; if (mine != no_subblock) md.split(mine, s);
        Domain<2> d = subblock_domain(v.transpose());
        for (int i = 0; i < 2; ++i) r.eq(d[i].length(), mine == no_subblock ? 0 : md.d[1 - i].el[s[1 - i]].size(), "transpose-subblock_domain-local", str(i));
        r.eq(num_patches(v.transpose()), mine == no_subblock ? 0 : md.npat(mine), "transpose-num_patches-local", "");
        // every element once
        std::map<ul, int> cnt;
        for (ul q = 0; q < num_subblocks(v.transpose()); ++q)
          for (ul p = 0; p < num_patches(v.transpose(), q); ++p)
          {
            Domain<2> g = global_domain(v.transpose(), q, p);
            for (ul a = 0; a < g[0].length(); ++a) for (ul b = 0; b < g[1].length(); ++b) ++cnt[g[0].impl_nth(a) * 1000 + g[1].impl_nth(b)];
          }
        for (ul a = 0; a < md.d[1].n; ++a) for (ul b = 0; b < md.d[0].n; ++b) r.eq(cnt[a * 1000 + b], 1, "transpose-cover-once", str(a, ",", b));
      }
      for (ul sb = 0; sb < md.nsb(); ++sb)
      {
        ul s[3]; md.split(sb, s);
        processor_type pr = md.proc[sb];
        ul q = subblock(v.transpose(), pr);
        if (!r.is(q != no_subblock, "transpose-subblock", str("processor ", pr))) continue;
        Domain<2> d = subblock_domain(v.transpose(), q);
        r.is(d[0].length() == md.d[1].el[s[1]].size() && d[1].length() == md.d[0].el[s[0]].size(), "transpose-subblock_domain", str("processor ", pr));
        for (ul p = 0; p < num_patches(v.transpose(), q); ++p)
        {
          Domain<2> g = global_domain(v.transpose(), q, p), l = local_domain(v.transpose(), q, p);
          for (int i = 0; i < 2; ++i)
            for (ul x = 0; x < g[i].length(); ++x)
              r.is(l[i].impl_nth(x) < md.d[1 - i].el[s[1 - i]].size() && md.d[1 - i].el[s[1 - i]][l[i].impl_nth(x)] == g[i].impl_nth(x), "transpose-patch", str("processor ", pr, " patch ", p));
        }
        for (ul a = 0; a < md.d[1].el[s[1]].size(); ++a)
          for (ul b = 0; b < md.d[0].el[s[0]].size(); ++b)
          {
            ul g[2] = { md.d[1].el[s[1]][a], md.d[0].el[s[0]][b]}, l[2] = { a, b};
            Index<2> gi(g[0], g[1]), li(a, b);
            r.eq(subblock_from_global_index(v.transpose(), gi), q, "transpose-subblock_from_global_index", str(g[0], ",", g[1]));
            Index<2> got = local_from_global_index(v.transpose(), gi), back = global_from_local_index(v.transpose(), q, li);
            for (int i = 0; i < 2; ++i)
            {
              r.eq(got[i], l[i], "transpose-local_from_global_index", str(g[0], ",", g[1]));
              r.eq(back[i], g[i], "transpose-global_from_local_index", str(a, ",", b));
            }
          }
        if (pr == me)
        {
          r.is(v.transpose().local().size(0) == md.d[1].el[s[1]].size() && v.transpose().local().size(1) == md.d[0].el[s[0]].size(), "transpose-local-size", "");
          for (ul a = 0; a < md.d[1].el[s[1]].size(); ++a)
            for (ul b = 0; b < md.d[0].el[s[0]].size(); ++b)
            { ul g[2] = { md.d[0].el[s[0]][b], md.d[1].el[s[1]][a]}; r.eq(unsigned(v.transpose().local().get(a, b)), unsigned(val(g, 2)), "transpose-local-value", "");}
        }
      }
    }
  }
}
template <typename B> void slices(Rep &r, Tensor<int, B> v, Model const &md, ul me, vt::Rng &rng, std::string &lab)
{
  ul i = rng.range(0, md.d[0].n - 1), j = rng.range(0, md.d[1].n - 1), k = rng.range(0, md.d[2].n - 1);
  switch (rng.range(0, 5))
  {
    case 0: one_slice<2>(r, v(i, whole_domain, whole_domain), md, 0, i, me, lab); break;
    case 1: one_slice<2>(r, v(whole_domain, j, whole_domain), md, 1, j, me, lab); break;
    case 2: one_slice<2>(r, v(whole_domain, whole_domain, k), md, 2, k, me, lab); break;
    case 3: one_fibre(r, v(i, j, whole_domain), md, 0, 1, i, j, me, lab); break;
    case 4: one_fibre(r, v(i, whole_domain, k), md, 0, 2, i, k, me, lab); break;
    default: one_fibre(r, v(whole_domain, j, k), md, 1, 2, j, k, me, lab);
  }
}

template <typename W, typename M> W mkv(ul const *n, M const &m, vt::Rng &r, Domain<1>) { return r.coin() ? W(n[0], m) : W(n[0], 5, m);}
template <typename W, typename M> W mkv(ul const *n, M const &m, vt::Rng &r, Domain<2>) { return r.coin() ? W(n[0], n[1], m) : W(n[0], n[1], 5, m);}
template <typename W, typename M> W mkv(ul const *n, M const &m, vt::Rng &r, Domain<3>) { return r.coin() ? W(n[0], n[1], n[2], m) : W(n[0], n[1], n[2], 5, m);}
template <typename W, typename M> W mkview(ul const *n, M const &m, vt::Rng &r) { return mkv<W>(n, m, r, Domain<P_D>());}
template <typename X> struct Kind;
template <> struct Kind<Whole_dist> { static int const v = 0; static Whole_dist mk(ul, ul) { return Whole_dist();}};
template <> struct Kind<Block_dist> { static int const v = 1; static Block_dist mk(ul k, ul) { return Block_dist(k);}};
template <> struct Kind<Cyclic_dist> { static int const v = 2; static Cyclic_dist mk(ul k, ul c) { return Cyclic_dist(k, c);}};

template <typename D0, typename D1, typename D2, typename O>
void drive(Ctx &c, char const *order)
{
  dimension_type const D = P_D;
  typedef Map<D0, D1, D2> map_t;
  int const kind[3] = { Kind<D0>::v, Kind<D1>::v, Kind<D2>::v};
  ul me = local_processor(), np = num_processors();
  typedef Dense<D, int, O, map_t> block_t;
  typedef typename V<D>::template of<int, block_t>::type view_t;
  int reps = c.n(P_REPS);
  for (int rep = 0; rep < reps; ++rep)
  {
    vt::Rng rng(c.rng.next());                 // same on every rank
    bool virt = !rng.coin(1, 3);               // processors this program need not have
    Model md; md.D = D;
    ul room = virt ? 40 : np, n[3];
    std::string lab = str(D, "d ", order, virt ? " virtual" : " real");
    for (int i = 0; i < int(D); ++i)
    {
      MDim &x = md.d[i];
      x.kind = kind[i]; x.n = n[i] = rng.coin(1, 5) ? rng.range(1, 3) : rng.range(1, D == 1 ? 40 : D == 2 ? 13 : 7);
      x.k = x.kind == 0 ? 1 : std::max(1l, rng.range(1, std::min<ul>(room, D == 1 ? 9 : 4)));
      x.c = x.kind == 2 ? rng.range(1, rng.coin() ? 3 : x.n + 2) : 0;
      room /= x.k; if (!room) room = 1;
      x.build();
      lab += str(" ", "WBC"[x.kind], x.n, "/", x.k, x.kind == 2 ? str(":", x.c) : "");
    }
    ul nsb = md.nsb();
    // processors
    std::vector<ul> all; ul pool = virt ? nsb + 3 + np : np;
    for (ul i = 0; i < pool; ++i) all.push_back(i);
    bool dflt = !virt && rng.coin(1, 3);
    if (!dflt) for (ul i = pool; i-- > 1;) std::swap(all[i], all[rng.range(0, i)]);
    ul extra = dflt ? 0 : rng.coin(1, 4) ? std::min<ul>(2, pool - nsb) : 0;
    md.proc.assign(all.begin(), all.begin() + nsb);
    lab += " procs"; for (ul p : md.proc) lab += str(":", p);
    c.begin(lab);
    Rep r;
    Vector<processor_type> pv(nsb + extra);
    for (ul i = 0; i < nsb + extra; ++i) pv.put(i, all[i]);
    D0 d0 = Kind<D0>::mk(md.d[0].k, md.d[0].c); D1 d1 = Kind<D1>::mk(D > 1 ? md.d[1].k : 1, D > 1 ? md.d[1].c : 1); D2 d2 = Kind<D2>::mk(D > 2 ? md.d[2].k : 1, D > 2 ? md.d[2].c : 1);
    map_t m0 = dflt ? map_t(d0, d1, d2) : map_t(pv, d0, d1, d2);
    map_t m1(m0), m = dflt ? map_t(pv, d0, d1, d2) : map_t();
    int how = rng.range(0, 2);
    if (how == 0) m = m0; else if (how == 1) m = m1; else { map_t t = m1; m = t;}
    check_map(r, m, md, me, all, kind);
    r.is(m == m0, "equality", "copied map differs from the original");
    {
      // a map that differs in one respect
      std::vector<ul> q = all; bool diff = false;
      if (nsb > 1) { std::swap(q[0], q[1]); diff = true;} else if (pool > 1) { std::swap(q[0], q[pool - 1]); diff = true;}
      Vector<processor_type> pw(nsb); for (ul i = 0; i < nsb; ++i) pw.put(i, q[i]);
      map_t o(pw, d0, d1, d2);
      r.is((o == m0) == !diff, "inequality", "maps over different processors compare equal");
    }
    view_t v = mkview<view_t>(n, m, rng);
    for (int i = 0; i < int(D); ++i) r.eq(v.size(i), n[i], "view-size", str("dim ", i));
    r.is(v.block().map() == m0, "map-of-view", "");
    check_map(r, v.block().map(), md, me, all, kind);
    check_view<D>(r, v, md, me);
    check_index<D>(r, v, md, me);
    box(n, D, [&](ul const *g) { bput(v.block(), mkidx<D>(g), val(g, D));});
    check_local<D>(r, v, md, me, [&](ul const *g) { return val(g, D);}, "root");
    {
      map_t again = v.block().map();            // a map taken from a view serves another one
      view_t w = mkview<view_t>(n, again, rng);
      check_view<D>(r, w, md, me);
      view_t alias(v);
      check_view<D>(r, alias, md, me);
    }
    Sub<D, view_t, Kind<D0>::v != 2 && Kind<D1>::v != 2 && Kind<D2>::v != 2>::go(r, v, md, me, rng, lab);
    slices(r, v, md, me, rng, lab);
    c.count("queries", r.checks);
    c.count("indices", v.size());
    if (r.key.empty()) c.ok(lab); else c.fail(r.key, str(lab, ": ", r.det));
  }
}

// replicated and local maps
template <typename O> void whole_maps(Ctx &c)
{
  dimension_type const D = P_D;
  ul me = local_processor(), np = num_processors();
  for (int rep = 0; rep < c.n(P_REPS); ++rep)
  {
    vt::Rng rng(c.rng.next());
    ul n[3]; for (int i = 0; i < 3; ++i) n[i] = rng.range(1, 6);
    std::vector<ul> all; for (ul i = 0; i < np; ++i) all.push_back(i);
    bool dflt = rng.coin(1, 3);
    if (!dflt) for (ul i = np; i-- > 1;) std::swap(all[i], all[rng.range(0, i)]);
    ul k = dflt ? np : rng.range(1, np);
    bool member = false; for (ul i = 0; i < k; ++i) member |= all[i] == me;
    std::string lab = str("replicated ", D, "d over"); for (ul i = 0; i < k; ++i) lab += str(" ", all[i]);
    lab += str(" size ", n[0], ",", n[1], ",", n[2]);
    c.begin(lab);
    Rep r;
    Vector<processor_type> pv(k); for (ul i = 0; i < k; ++i) pv.put(i, all[i]);
    typedef Replicated_map<D> map_t;
    map_t m0 = dflt ? map_t() : map_t(pv);
    map_t m(m0);
    r.eq(m.num_subblocks(), 1, "num_subblocks", ""); r.eq(m.num_processors(), k, "num_processors", "");
    for (int d = 0; d < int(D); ++d) { r.eq(m.distribution(d), whole, "distribution", ""); r.eq(m.num_subblocks(d), 1, "num_subblocks-dim", ""); r.eq(m.cyclic_contiguity(d), 0, "cyclic_contiguity", "");}
    for (ul i = 0; i < np; ++i) { bool in = std::find(all.begin(), all.begin() + k, i) != all.begin() + k; r.eq(m.subblock(processor_type(i)), in ? 0 : no_subblock, "subblock-of-processor", str(i));}
    r.eq(m.subblock(), member ? 0 : no_subblock, "local-subblock", "");
    if (r.eq(m.processor_set().size(), k, "processor_set-size", "")) for (ul i = 0; i < k; ++i) r.eq(m.processor_set().get(i), all[i], "processor_set", "");
    ul cnt = 0;
    for (typename map_t::processor_iterator i = m.processor_begin(0); i != m.processor_end(0) && cnt < 9; ++i, ++cnt) r.eq(*i, all[cnt], "processor-of-subblock", "");
    r.eq(cnt, k, "processors-per-subblock", "");
    typedef Dense<D, int, O, map_t> block_t;
    typedef typename V<D>::template of<int, block_t>::type view_t;
    view_t v = mkview<view_t>(n, m, rng);
    box(n, D, [&](ul const *g) { bput(v.block(), mkidx<D>(g), val(g, D));});
    r.eq(num_subblocks(v), 1, "view-num_subblocks", "");
    r.eq(subblock(v), member ? 0 : no_subblock, "view-local-subblock", "");
    r.eq(num_patches(v), member ? 1 : 0, "num_patches-local", "");
    Domain<D> sd = subblock_domain(v);
    Domain<D> gd = global_domain(v), ld = local_domain(v);
    for (int i = 0; i < int(D); ++i)
    {
      r.eq(dim(subblock_domain(v, 0), i).length(), n[i], "subblock_domain", "");
      r.eq(dim(global_domain(v, 0, 0), i).length(), n[i], "global_domain", ""); r.eq(dim(local_domain(v, 0, 0), i).length(), n[i], "local_domain", "");
      r.eq(dim(sd, i).length(), member ? n[i] : 0, "subblock_domain-local", "");
      r.eq(dim(gd, i).length(), member ? n[i] : 0, "global_domain-local", "");
      r.eq(dim(ld, i).length(), member ? n[i] : 0, "local_domain-local", "");
    }
    box(n, D, [&](ul const *g) {
      Index<D> gi = mkidx<D>(g);
      r.eq(subblock_from_global_index(v, gi), 0, "subblock_from_global_index", ""); r.eq(patch_from_global_index(v, gi), 0, "patch_from_global_index", "");
      Index<D> l = local_from_global_index(v, gi), b = global_from_local_index(v, 0, gi);
      for (int i = 0; i < int(D); ++i)
      {
        r.eq(l[i], g[i], "local_from_global_index", ""); r.eq(b[i], g[i], "global_from_local_index", "");
        r.eq(local_from_global_index(v, dimension_type(i), index_type(g[i])), g[i], "local_from_global_index-dim", "");
        if (member) r.eq(global_from_local_index(v, dimension_type(i), index_type(g[i])), g[i], "global_from_local_index-dim-local", "");
      }
      if (member) r.eq(lget(v.local(), g), unsigned(val(g, D)), "local-value", "");});
    if (!member) r.eq(v.local().size(), 0, "local-size-elsewhere", "");
    c.count("queries", r.checks); c.count("indices", v.size());
    if (r.key.empty()) c.ok(lab); else c.fail("replicated-" + r.key, str(lab, ": ", r.det));
  }
}
template <typename O> void local_maps(Ctx &c)
{
  dimension_type const D = P_D;
  ul me = local_processor(), np = num_processors();
  for (int rep = 0; rep < c.n(P_REPS) / 4; ++rep)
  {
    vt::Rng rng(c.rng.next());
    ul n[3]; for (int i = 0; i < 3; ++i) n[i] = rng.range(1, 9);
    std::string lab = str("local map ", D, "d size ", n[0], ",", n[1], ",", n[2]);
    c.begin(lab);
    Rep r; Local_map m;
    typedef Dense<D, int, O> block_t;
    typedef typename V<D>::template of<int, block_t>::type view_t;
    view_t v = mkview<view_t>(n, m, rng);
    r.eq(m.num_subblocks(), 1, "num_subblocks", ""); r.eq(m.subblock(), 0, "local-subblock", "");
    for (ul i = 0; i < np; ++i) r.eq(m.subblock(processor_type(i)), i == me ? 0 : no_subblock, "subblock-of-processor", "");
    r.eq(num_subblocks(v), 1, "view-num_subblocks", ""); r.eq(num_patches(v), 1, "num_patches-local", ""); r.eq(num_patches(v, 0), 1, "num_patches", "");
    for (int i = 0; i < int(D); ++i)
    {
      r.eq(dim(subblock_domain(v), i).length(), n[i], "subblock_domain", ""); r.eq(dim(local_domain(v), i).length(), n[i], "local_domain", ""); r.eq(dim(global_domain(v), i).length(), n[i], "global_domain", "");
      r.eq(dim(subblock_domain(v, no_subblock), i).length(), 0, "subblock_domain-none", "");
      r.eq(global_from_local_index(v, dimension_type(i), index_type(n[i] - 1)), n[i] - 1, "global_from_local_index-dim", "");
    }
    box(n, D, [&](ul const *g) {
      bput(v.block(), mkidx<D>(g), val(g, D));
      Index<D> b = global_from_local_index(v, 0, mkidx<D>(g)), b2 = global_from_local_index(v, mkidx<D>(g));
      for (int i = 0; i < int(D); ++i) { r.eq(b[i], g[i], "global_from_local_index", ""); r.eq(b2[i], g[i], "global_from_local_index-local", "");}
      r.eq(lget(v.local(), g), unsigned(val(g, D)), "local-value", "");});
    c.count("queries", r.checks); c.count("indices", v.size());
    if (r.key.empty()) c.ok(lab); else c.fail("local-" + r.key, str(lab, ": ", r.det));
  }
}

void vt_main(Ctx &c)
{
#define RUN(a, b, d) drive<a, b, d, P_O>(c, P_ON);
#define RUN1(a, b) RUN(a, b, Whole_dist)
  typedef Whole_dist W_; typedef Block_dist B_; typedef Cyclic_dist C_;
  int it = 0; (void)it;
#ifdef P_WHOLE
  whole_maps<P_O>(c); local_maps<P_O>(c);
#elif P_D == 1
  RUN(W_, W_, W_) RUN(B_, W_, W_) RUN(C_, W_, W_) RUN(B_, B_, B_)
#elif P_D == 2
  RUN(P_0, W_, W_) RUN(P_0, B_, W_) RUN(P_0, C_, W_)
#else
  RUN(P_0, P_1, W_) RUN(P_0, P_1, B_) RUN(P_0, P_1, C_)
#endif
}
#include "main.hpp"
