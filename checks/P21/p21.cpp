// Domains, indices and lengths against explicit lists of indices.
#include "vt.hpp"
#include <vsip/initfin.hpp>
#include <vsip/support.hpp>
#include <vsip/domain.hpp>
#include <vsip/map.hpp>
#include <vsip/vector.hpp>
#include <ovxx/domain_utils.hpp>
#include <functional>
using namespace vsip;
using vt::str; using vt::Ctx;
typedef unsigned long ul;
typedef std::vector<long> L;
struct T { long f, s; ul n;                    // a domain by its definition
  L list() const { L r; for (ul i = 0; i < n; ++i) r.push_back(f + s * long(i)); return r;}
  std::set<long> set() const { L l = list(); return std::set<long>(l.begin(), l.end());}
  bool valid() const { return n == 0 ? f >= 0 : f >= 0 && f + s * long(n - 1) >= 0;}
  Domain<1> d() const { return Domain<1>(f, s, n);}
  std::string lab() const { return str("(", f, ",", s, ",", n, ")");}
};
static L list(Domain<1> const &d) { L r; for (ul i = 0; i < d.size(); ++i) r.push_back(long(d.impl_nth(i))); return r;}
static T rnd(vt::Rng &r, bool empty = true)
{
  for (;;)
  {
    long big = r.coin(1, 8) ? 1000000007L : 12;
    T t = { r.range(0, big), r.range(-6, 6), ul(r.range(empty ? 0 : 1, 7))};
    if (r.coin(1, 8)) t.s *= 1000003;
    if (t.s && t.valid()) return t;
  }
}
struct Chk
{
  Ctx &c; bool good;
  template <typename... A> void operator()(bool x, char const *key, A const &...a) { if (!x) { good = false; c.fail(key, str(a...));}}
};
// the same set written another way, when there is one
static T twin(vt::Rng &r, T t)
{
  if (t.n == 1) { T o = { t.f, r.range(1, 5) * (r.coin() ? 1 : -1), 1}; return o;}
  if (t.n > 1 && r.coin()) { T o = { t.f + t.s * long(t.n - 1), -t.s, t.n}; return o;}
  return t;
}
static void one(Ctx &c, T const &t)
{
  c.begin("single " + t.lab()); Chk k = { c, true};
  Domain<1> d = t.d();
  k(list(d) == t.list(), "nth", t.lab());
  k(d.first() == ul(t.f) && d.stride() == t.s && d.length() == t.n && d.size() == t.n && ovxx::size(d) == t.n && ovxx::size_of_dim(d, 0) == t.n, "fields", t.lab());
  if (t.n) k(long(d.impl_last()) == t.list().back(), "last", t.lab());
  k(d.impl_is_valid(), "valid", t.lab());
  Domain<1> e(d), a(77, -1, 3), &f = (a = d); k(list(e) == t.list() && list(a) == t.list() && &f == &a && e == d && !(e != d), "copy", t.lab());
  k(list(d[0]) == t.list(), "subscript", t.lab());
  k(list(ovxx::normalize(d)) == L(T{0, 1, t.n}.list()), "normalize", t.lab());
  Domain<1> l(t.n); k(list(l) == T{0, 1, t.n}.list() && l.stride() == 1, "length-constructor", t.n);
  k(list(ovxx::domain(ovxx::extent(d))) == T{0, 1, t.n}.list(), "extent", t.lab());
  k(list(ovxx::domain(ovxx::first(d), ovxx::extent(d))) == T{t.f, 1, t.n}.list(), "first", t.lab());
  k(!d.product_conformant(Domain<2>(d, d)), "product", t.lab());
  for (long o : { 0L, 1L, -1L, 5L, -5L, 123456789012L, -t.f})
  {
    T p = { t.f + o, t.s, t.n}, m = { t.f - o, t.s, t.n};
    if (p.valid()) { k(list(d + o) == p.list() && list(o + d) == p.list(), "offset", t.lab(), " + ", o); Domain<1> x(d); x.impl_add_in(o); k(list(x) == p.list(), "offset", t.lab(), " + ", o);}
    if (m.valid()) { k(list(d - o) == m.list(), "offset", t.lab(), " - ", o); Domain<1> x(d); x.impl_sub_out(o); k(list(x) == m.list(), "offset", t.lab(), " - ", o);}
  }
  for (ul s : { 1ul, 2ul, 3ul, 7ul, 1000ul})
  {
    T p = { t.f, t.s * long(s), t.n};
    if (p.valid()) { k(list(d * s) == p.list() && list(s * d) == p.list() && (d * s).stride() == p.s, "scale", t.lab(), " * ", s); Domain<1> x(d); x.impl_mul_by(s); k(list(x) == p.list(), "scale", t.lab(), " * ", s);}
    if (t.s % long(s) == 0) { T q = { t.f, t.s / long(s), t.n}; Domain<1> x(q.d()); x = p.valid() ? (d * s) / s : d; k(list(x) == t.list(), "scale", t.lab(), " * ", s, " / ", s);
      Domain<1> y = d / s; k(list(y) == q.list() && y.stride() == q.s, "divide", t.lab(), " / ", s, " gives stride ", y.stride());}
  }
  if (k.good) c.ok(t.lab());
}
static void two(Ctx &c, T const &x, T const &y)
{
  c.begin(str("pair ", x.lab(), y.lab())); Chk k = { c, true};
  Domain<1> a = x.d(), b = y.d();
  bool eq = x.set() == y.set();
  k((a == b) == eq && (a != b) == !eq && (b == a) == eq && a.impl_equals(b) == eq, "equality", x.lab(), y.lab(), eq ? " are the same set" : " are different sets");
  k(a.element_conformant(b) == (x.n == y.n), "conformant", x.lab(), y.lab());
  if (x.s == 1)
  {
    Domain<1> r(99, 3, 4); bool hit = ovxx::intersect(a, b, r);
    std::set<long> xs = x.set(); L want; for (long i : y.list()) if (xs.count(i)) want.push_back(i);
    k(hit == !want.empty(), "intersect", x.lab(), y.lab(), " reported ", hit);
    if (!hit) k(list(r) == T{99, 3, 4}.list(), "intersect-untouched", x.lab(), y.lab());
    else if (hit && !want.empty())
    {
      L got = list(r); if (got.size() == want.size() && want.size() == 1) k(got == want, "intersect", x.lab(), y.lab()); else k(got == want, "intersect", x.lab(), y.lab(), " gives ", r.first(), ",", r.stride(), ",", r.size());
      // the intersection seen as a part of either
      Domain<1> sub = ovxx::subset_from_intr(b, r); L yl = y.list(), sl;
      for (long i : list(sub)) sl.push_back(i >= 0 && i < long(yl.size()) ? yl[i] : -1);
      k(sl == want, "subset", x.lab(), y.lab(), " gives ", sub.first(), ",", sub.stride(), ",", sub.size());
      T z = { 400, (x.f + y.f) % 2 ? 3 : -2, x.n}; Domain<1> app = ovxx::apply_intr(z.d(), a, r); L al; for (long i : want) al.push_back(z.f + z.s * (i - x.f));
      k(list(app) == al, "apply", x.lab(), y.lab(), " gives ", app.first(), ",", app.stride(), ",", app.size());
    }
  }
  if (k.good) c.ok(str(x.lab(), y.lab()));
}
typedef std::vector<L> Box;
template <dimension_type D> struct Mk;
template <> struct Mk<1> { static Domain<1> of(T const *t) { return t[0].d();} static Index<1> ix(ul const *i) { return Index<1>(i[0]);} static ovxx::Length<1> len(ul const *i) { return ovxx::Length<1>(i[0]);}};
template <> struct Mk<2> { static Domain<2> of(T const *t) { return Domain<2>(t[0].d(), t[1].d());} static Index<2> ix(ul const *i) { return Index<2>(i[0], i[1]);} static ovxx::Length<2> len(ul const *i) { return ovxx::Length<2>(i[0], i[1]);}};
template <> struct Mk<3> { static Domain<3> of(T const *t) { return Domain<3>(t[0].d(), t[1].d(), t[2].d());} static Index<3> ix(ul const *i) { return Index<3>(i[0], i[1], i[2]);} static ovxx::Length<3> len(ul const *i) { return ovxx::Length<3>(i[0], i[1], i[2]);}};
template <dimension_type D> static Box lists(Domain<D> const &d) { Box b; for (dimension_type i = 0; i < D; ++i) b.push_back(list(d[i])); return b;}
template <dimension_type D> static Box lists(T const *t) { Box b; for (dimension_type i = 0; i < D; ++i) b.push_back(t[i].list()); return b;}
template <dimension_type D> static std::string lab(T const *t) { std::string s; for (dimension_type i = 0; i < D; ++i) s += t[i].lab(); return s;}
template <dimension_type D> struct Proj { static void go(Chk &k, T const *t, Domain<D> const &d) { k(lists<1>(ovxx::project<1>(d)) == lists<1>(t), "project", lab<D>(t)); if constexpr (D >= 2) k(lists<2>(ovxx::project<2>(d)) == lists<2>(t), "project", lab<D>(t)); if constexpr (D == 3) k(lists<3>(ovxx::project<3>(d)) == lists<3>(t), "project", lab<D>(t));}};
template <dimension_type D> static void many(Ctx &c, vt::Rng &r)
{
  T t[3], u[3], w[3];
  for (int i = 0; i < 3; ++i) { t[i] = rnd(r, false); u[i] = r.coin(2, 3) ? twin(r, t[i]) : rnd(r, false); w[i] = t[i]; w[i].s = 1; w[i].n = r.range(1, 9); w[i].f = std::max(0L, t[i].f + r.range(-9, 9));}
  std::string l = str(D, "-d ", lab<D>(t), " ", lab<D>(u), " ", lab<D>(w));
  c.begin(l); Chk k = { c, true};
  Domain<D> d = Mk<D>::of(t), e = Mk<D>::of(u), win = Mk<D>::of(w);
  ul sz = 1; bool eq = true, conf = true; for (ul i = 0; i < D; ++i) { sz *= t[i].n; eq = eq && t[i].set() == u[i].set(); conf = conf && t[i].n == u[i].n;}
  k(d.size() == sz && ovxx::size(d) == sz, "size", l, " size ", d.size());
  k((d == e) == eq && (d != e) == !eq && (e == d) == eq, "equality", l);
  k(d.element_conformant(e) == conf, "conformant", l);
  k(lists<D>(d) == lists<D>(t), "fields", l);
  Domain<D> cp(d), as; for (dimension_type i = 0; i < D; ++i) k(list(as[i]) == L(1, 0), "default", i); as = d; k(lists<D>(cp) == lists<D>(t) && lists<D>(as) == lists<D>(t), "copy", l);
  Domain<1> parts[3] = { t[0].d(), t[1].d(), t[2].d()}; k(lists<D>(ovxx::construct_domain<D>(parts)) == lists<D>(t), "construct", l);
  Proj<D>::go(k, t, d);
  Domain<D> em = ovxx::empty_domain<D>(); k(em.size() == 0, "empty", "");
  T nm[3]; ul n[3], f[3]; for (int i = 0; i < 3; ++i) { nm[i] = T{0, 1, t[i].n}; n[i] = t[i].n; f[i] = t[i].f;}
  k(lists<D>(ovxx::normalize(d)) == lists<D>(nm), "normalize", l);
  ovxx::Length<D> ext = ovxx::extent(d); k(lists<D>(ovxx::domain(ext)) == lists<D>(nm), "extent", l);
  k(ext == Mk<D>::len(n) && ovxx::total_size(ext) == sz, "length", l);
  Index<D> fi = ovxx::first(d); for (int i = 0; i < 3; ++i) nm[i].f = t[i].f;
  k(fi == Mk<D>::ix(f) && lists<D>(ovxx::domain(fi, ext)) == lists<D>(nm), "first", l);
  { Dense<D, char> b(ovxx::domain(ext)); nm[0].f = nm[1].f = nm[2].f = 0; k(lists<D>(ovxx::block_domain<D>(b)) == lists<D>(nm), "block-domain", l); k(ovxx::extent<D>(b) == ext, "block-extent", l);}
  // offsets and scaling apply to every dimension
  long o = r.range(-9, 9); T p[3], m[3], s[3], q[3]; bool pv = true, mv = true, sv = true; ul f1 = r.range(1, 4); bool qv = true;
  for (ul i = 0; i < 3; ++i) { p[i] = m[i] = s[i] = q[i] = t[i]; p[i].f += o; m[i].f -= o; s[i].s *= long(f1); q[i].s /= long(f1); if (i < D) { pv = pv && p[i].valid(); mv = mv && m[i].valid(); sv = sv && s[i].valid(); qv = qv && t[i].s % long(f1) == 0;}}
  if (pv) k(lists<D>(d + o) == lists<D>(p) && lists<D>(o + d) == lists<D>(p), "offset", l, " + ", o);
  if (mv) k(lists<D>(d - o) == lists<D>(m), "offset", l, " - ", o);
  if (sv) k(lists<D>(d * f1) == lists<D>(s) && lists<D>(f1 * d) == lists<D>(s), "scale", l, " * ", f1);
  if (qv) k(lists<D>(d / f1) == lists<D>(q), "divide", l, " / ", f1);
  if (D == 2) { T v[2] = { u[1], u[0]}; Domain<2> other = Mk<2>::of(v); k(d.product_conformant(other) == (t[1].n == v[0].n), "product", l);}
  if (D == 3) k(!d.product_conformant(Mk<2>::of(u)), "product", l);
  // intersection with a window of stride 1
  Domain<D> res; bool hit = ovxx::intersect(win, d, res), want = true; Box wl;
  for (ul i = 0; i < D; ++i) { std::set<long> ws = w[i].set(); L x; for (long j : t[i].list()) if (ws.count(j)) x.push_back(j); want = want && !x.empty(); wl.push_back(x);}
  k(hit == want, "intersect", l, " reported ", hit);
  if (hit && want)
  {
    k(lists<D>(res) == wl, "intersect", l);
    Domain<D> sub = ovxx::subset_from_intr(d, res), app = ovxx::apply_intr(ovxx::normalize(win), win, res); bool ok = true, ok2 = true;
    for (ul i = 0; i < D; ++i) { L tl = t[i].list(), sl, al; for (long j : list(sub[i])) sl.push_back(j >= 0 && j < long(tl.size()) ? tl[j] : -1); ok = ok && sl == wl[i]; for (long j : wl[i]) al.push_back(j - w[i].f); ok2 = ok2 && list(app[i]) == al;}
    k(ok, "subset", l); k(ok2, "apply", l);
  }
  // indices: nth, sum and difference, traversal in row-major order, validity
  ul a[3], b[3], sum[3], dif[3], nth[3]; bool same = true, in = true;
  for (ul i = 0; i < 3; ++i) { a[i] = r.range(0, 8); b[i] = r.coin() ? a[i] : r.range(0, 8); sum[i] = a[i] + b[i]; dif[i] = a[i] - b[i]; nth[i] = t[i].f + t[i].s * long(a[i]); if (i < D) { same = same && a[i] == b[i]; in = in && a[i] < n[i];}}
  Index<D> ia = Mk<D>::ix(a), ib = Mk<D>::ix(b);
  k((ia == ib) == same && (ia != ib) == !same, "index-equality", l);
  k(ia + ib == Mk<D>::ix(sum) && ia - ib == Mk<D>::ix(dif), "index-arithmetic", l);
  k(ovxx::valid(ext, ia) == in, "index-valid", l);
  if (in) k(ovxx::domain_nth(d, ia) == Mk<D>::ix(nth), "domain-nth", l);
  if (k.good) c.ok(l);
}
template <typename O, dimension_type D> static void walk(Ctx &c, char const *name, ul const *n, int const *ord)
{
  std::string l = str("traversal ", name, " ", n[0], "x", n[1], "x", n[2]); c.begin(l);
  ovxx::Length<D> ext = Mk<D>::len(n); ul cnt[3] = {0, 0, 0}, steps = 0, tot = 1; for (ul i = 0; i < D; ++i) tot *= n[i];
  bool good = true;
  for (Index<D> i; good && ovxx::valid(ext, i); ovxx::next<O>(ext, i))
  {
    if (steps++ >= tot) { good = false; break;}
    for (ul d = 0; d < D; ++d) if (i[d] != cnt[d]) good = false;
    for (int d = D; d-- > 0;) { if (++cnt[ord[d]] < n[ord[d]] || d == 0) break; cnt[ord[d]] = 0;}
  }
  if (good && steps == tot) c.ok(l); else c.fail("traversal", str(l, " after ", steps, " of ", tot));
}
void vt_main(Ctx &c)
{
  // every small domain, every pair of them
  std::vector<T> all;
  for (long f = 0; f < 9; ++f) for (long s = -4; s <= 4; ++s) for (ul n = 0; n < 6; ++n) { T t = { f, s, n}; if (s && t.valid()) all.push_back(t);}
  for (T const &t : all) one(c, t);
  for (T const &x : all) for (T const &y : all) two(c, x, y);
  for (int i = 0; i < c.n(40000); ++i) { T x = rnd(c.rng), y = c.rng.coin() ? twin(c.rng, x) : rnd(c.rng); if (c.rng.coin()) { x.s = 1; x.n = c.rng.range(0, 40); x.f = std::max(0L, y.f + c.rng.range(-30, 30));} one(c, x); two(c, x, y);}
  for (int i = 0; i < c.n(40000); ++i) { many<1>(c, c.rng); many<2>(c, c.rng); many<3>(c, c.rng);}
  int o01[] = {0, 1}, o10[] = {1, 0}, o012[] = {0, 1, 2}, o021[] = {0, 2, 1}, o102[] = {1, 0, 2}, o120[] = {1, 2, 0}, o201[] = {2, 0, 1}, o210[] = {2, 1, 0}, o0[] = {0};
  for (ul i = 1; i < 5; ++i) for (ul j = 1; j < 5; ++j) for (ul k = 1; k < 5; ++k)
  {
    ul n[3] = { i, j, k};
    walk<tuple<0, 1, 2>, 3>(c, "012", n, o012); walk<tuple<0, 2, 1>, 3>(c, "021", n, o021); walk<tuple<1, 0, 2>, 3>(c, "102", n, o102);
    walk<tuple<1, 2, 0>, 3>(c, "120", n, o120); walk<tuple<2, 0, 1>, 3>(c, "201", n, o201); walk<tuple<2, 1, 0>, 3>(c, "210", n, o210);
    if (k == 1) { walk<row2_type, 2>(c, "row", n, o01); walk<col2_type, 2>(c, "col", n, o10);}
    if (j == 1 && k == 1) walk<row1_type, 1>(c, "line", n, o0);
  }
}
#include "main.hpp"
