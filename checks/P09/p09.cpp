// P09: matrix and vector products against their defining sums in long double.
#include "model.hpp"
#include "main.hpp"
using namespace vt; using vsip::mat_op_type; using vsip::mat_ntrans; using vsip::mat_trans; using vsip::mat_herm; using vsip::mat_conj;
typedef P_T T;
typedef scalar<T>::type S;
typedef std::complex<long double> L;
static bool const cplx = is_cplx<T>::value;
static Ctx *C;
template <typename X> L wide(X x) { return L((long double)x, 0);}
template <typename X> L wide(std::complex<X> x) { return L(x.real(), x.imag());}
static L cj(L x) { return std::conj(x);}

// a model array: elements, and the sum of magnitudes that went into each
struct Arr
{
  long n[3]; std::vector<L> x; std::vector<long double> w;
  Arr(long a = 0, long b = 1) { n[0] = a; n[1] = b; n[2] = 1; x.assign(a * b, L()); w.assign(a * b, 0);}
  L &at(long i, long j = 0) { return x[i * n[1] + j];}
  L at(long i, long j = 0) const { return x[i * n[1] + j];}
  void add(long i, long j, L p) { x[i * n[1] + j] += p; w[i * n[1] + j] += std::abs(p);}
};
static bool exact_vals;
__attribute__((noinline)) static std::vector<T> draw(long n)
{ return exact_vals || std::is_integral<S>::value ? rvals<T>(C->rng, n, -6, 6) : rreal<T>(C->rng, n, 2);}
static Arr model(std::vector<T> const &v, long a, long b)
{ Arr m(a, b); for (size_t i = 0; i < v.size(); ++i) m.x[i] = wide(v[i]); return m;}
template <int D> __attribute__((noinline)) Arr load(Erased<T, D> &e)
{
  e.guards(C->rng);
  std::vector<T> v = draw(e.s.total()); e.setup(v);
  return model(v, e.s.n[0], e.s.n[1]);
}
static Arr tr(Arr const &a) { Arr r(a.n[1], a.n[0]); for (long i = 0; i < r.n[0]; ++i) for (long j = 0; j < r.n[1]; ++j) { r.at(i, j) = a.at(j, i); r.w[i * r.n[1] + j] = a.w[j * a.n[1] + i];} return r;}
static Arr cjg(Arr a) { for (auto &e : a.x) e = cj(e); return a;}
static Arr mul(Arr const &a, Arr const &b)
{
  Arr r(a.n[0], b.n[1]);
  for (long i = 0; i < r.n[0]; ++i) for (long j = 0; j < r.n[1]; ++j) for (long k = 0; k < a.n[1]; ++k) r.add(i, j, a.at(i, k) * b.at(k, j));
  return r;
}
static double tolf(long terms) { return std::is_integral<S>::value || exact_vals ? 0 : (4 * double(terms) + 16) * eps_of<S>::get();}
static std::string cmp(std::vector<T> const &got, Arr const &want, long terms)
{
  if (got.size() != want.x.size()) return str(got.size(), " elements, expected ", want.x.size());
  double t = tolf(terms);
  for (size_t i = 0; i < got.size(); ++i)
    if (!(std::abs(wide(got[i]) - want.x[i]) <= t * (want.w[i] + std::abs(want.x[i]))))
      return str("element #", i, " = ", got[i], " expected ", want.x[i], " (relative to ", double(want.w[i]), ", tolerance ", t, ")");
  return "";
}
// destination: close to the model, surroundings untouched; operand: unchanged
template <int D> __attribute__((noinline)) bool dest(std::string const &key, Erased<T, D> &e, Arr const &want, long terms)
{
  std::vector<T> got = e.read();
  std::string m = cmp(got, want, terms);
  if (m.empty()) m = e.verify(got);
  if (m.empty()) { C->ok(C->label, 1 + long(got.size()) / 8); return true;}
  C->fail(key, m); return false;
}
template <int D> __attribute__((noinline)) void same_operand(std::string const &key, Erased<T, D> &e)
{ std::string m = e.verify(e.values()); if (!m.empty()) C->fail(key + ":operand-changed", m);}
static void value(std::string const &key, T got, L want, long double w, long terms)
{
  double t = tolf(terms);
  if (std::abs(wide(got) - want) <= t * (w + std::abs(want))) C->ok(C->label);
  else C->fail(key, str("value ", got, " expected ", want, " tolerance ", t));
}
static std::string key(char const *op) { return str(op, ":", tname<T>::get());}
static long dimn(long cap = 7) { return C->rng.coin(1, 7) ? 1 : C->rng.coin(1, 14) ? C->rng.range(9, 24) : C->rng.range(2, cap);}

// ---- matrix x matrix ---------------------------------------------------------
template <mat_op_type O> Arr opm(Arr const &a)
{ return O == mat_trans ? tr(a) : O == mat_herm ? cjg(tr(a)) : O == mat_conj ? cjg(a) : a;}
template <int N> struct mop { static mat_op_type const value = N == 0 ? mat_ntrans : N == 1 ? mat_trans : N == 2 ? mat_herm : mat_conj;};

template <typename A, typename B, typename R> void prodx(int op, A a, B b, R r, std::true_type)
{ if (op == 2) r = prodh(a, b); else r = prodj(a, b);}
template <typename A, typename B, typename R> void prodx(int, A, B, R, std::false_type) {}
template <int KA, int KB, int KR> __attribute__((noinline)) void mm()
{
  Ctx &c = *C;
  typedef Zoo2<T> Z;
  mat_op_type const OA = mop<(KA + KR) % 4>::value, OB = mop<(KB + KR / 4 + KA / 4) % 4>::value;
  for (int q = 0; q < int(c.n(P_REPS)); ++q)
  {
    exact_vals = c.rng.coin(1, 3);
    // 0 prod 1 prodt 2 prodh 3 prodj 4 gemp 5 gems 6 prod inside an expression 7 prod of a product
    int op = int(c.rng.range(0, 7)); if (!cplx && (op == 2 || op == 3)) op = 4;
    long m = dimn(), k = dimn(), n = dimn();
    bool ta = op == 4 && (OA == mat_trans || OA == mat_herm), tb = op == 1 || op == 2 || (op == 4 && (OB == mat_trans || OB == mat_herm));
    if (op == 5) { ta = OA == mat_trans || OA == mat_herm; n = k;}
    auto a = erase(Z::make(kint<KA>(), c.rng, ta ? k : m, ta ? m : k));
    auto b = erase(Z::make(kint<KB>(), c.rng, tb ? n : k, tb ? k : n));
    auto r = erase(Z::make(kint<KR>(), c.rng, m, n));
    static char const *nm[] = {"prod", "prodt", "prodh", "prodj", "gemp", "gems", "prod+expr", "prod of prod"};
    c.begin(str(nm[op], " ", tname<T>::get(), " ", r.what, " = ", a.what, " , ", b.what, " [", m, "x", k, "x", n, "]",
                op == 4 || op == 5 ? str(" ops ", int(OA), ",", int(OB)) : ""));
    Arr xa = load<2>(a), xb = load<2>(b), xr = load<2>(r), want;
    T al = draw(1)[0], be = draw(1)[0];
    if (c.rng.coin(1, 5)) be = T(0); if (c.rng.coin(1, 5)) al = T(1);
    long terms = k;
    switch (op)
    {
      case 0: r.v = vsip::prod(a.v, b.v); want = mul(xa, xb); break;
      case 1: r.v = vsip::prodt(a.v, b.v); want = mul(xa, tr(xb)); break;
      case 2: prodx(2, a.v, b.v, r.v, is_cplx<T>()); want = mul(xa, cjg(tr(xb))); break;
      case 3: prodx(3, a.v, b.v, r.v, is_cplx<T>()); want = mul(xa, cjg(xb)); break;
      case 4:
        vsip::gemp<OA, OB>(al, a.v, b.v, be, r.v);
        want = mul(opm<OA>(xa), opm<OB>(xb));
        for (long i = 0; i < m * n; ++i)
        {
          L p = wide(al) * want.x[i], s = wide(be) * xr.x[i];
          want.w[i] = std::abs(wide(al)) * want.w[i] + std::abs(s); want.x[i] = p + s;
        }
        break;
      case 5:
        vsip::gems<OA>(al, a.v, be, r.v);
        want = opm<OA>(xa);
        for (long i = 0; i < m * n; ++i)
        {
          L p = wide(al) * want.x[i], s = wide(be) * xr.x[i];
          want.w[i] = std::abs(p) + std::abs(s); want.x[i] = p + s;
        }
        break;
      case 6:
        r.v = vsip::prod(a.v, b.v) * al - r.v;
        want = mul(xa, xb);
        for (long i = 0; i < m * n; ++i)
        { want.w[i] = std::abs(wide(al)) * want.w[i] + std::abs(xr.x[i]); want.x[i] = wide(al) * want.x[i] - xr.x[i];}
        break;
      default:
        if (m != n) { m = 0; }      // (a b) a needs n == rows of a
        if (!m) { C->cases--; continue;}
        auto r2 = erase(Z::make(kint<0>(), c.rng, n, k));
        load<2>(r2);
        r2.v = vsip::prod(vsip::prod(a.v, b.v), a.v);
        Arr ab = mul(xa, xb); want = mul(ab, xa);
        for (long i = 0; i < n; ++i) for (long j = 0; j < k; ++j)
        { long double w = 0; for (long t = 0; t < n; ++t) w += ab.w[i * n + t] * std::abs(xa.at(t, j)); want.w[i * k + j] = w;}
        dest<2>(key(nm[op]), r2, want, terms + n);
        same_operand<2>(key(nm[op]), a); same_operand<2>(key(nm[op]), b);
        continue;
    }
    dest<2>(key(nm[op]), r, want, terms + 4);
    same_operand<2>(key(nm[op]), a); same_operand<2>(key(nm[op]), b);
  }
}
// ---- matrix x vector -----------------------------------------------------------
template <int KA, int KB, int KR> __attribute__((noinline)) void mv()
{
  Ctx &c = *C;
  for (int q = 0; q < int(c.n(P_REPS)); ++q)
  {
    exact_vals = c.rng.coin(1, 3);
    // 0 m.v 1 v.m 2 prod3/4 m.v 3 prod3/4 m.m into row-major
    int op = int(c.rng.range(0, 6)); if (op > 3) op &= 1;
    long m = dimn(), k = dimn();
    if (op == 2) m = k = c.rng.coin() ? 3 : 4;
    if (op == 3) { m = k = c.rng.coin() ? 3 : 4;}
    auto a = erase(Zoo2<T>::make(kint<KA>(), c.rng, op == 1 ? k : m, op == 1 ? m : k));
    auto b = erase(Zoo1<T>::make(kint<KB>(), c.rng, k));
    auto r = erase(Zoo1<T>::make(kint<KR>(), c.rng, m));
    static char const *nm[] = {"prod(m,v)", "prod(v,m)", "prod34(m,v)", "prod34(m,m)"};
    c.begin(str(nm[op], " ", tname<T>::get(), " ", r.what, " = ", a.what, " , ", b.what, " [", m, "x", k, "]"));
    Arr xa = load<2>(a), xb = load<1>(b), want; load<1>(r);
    if (op == 3)
    {
      auto r2 = erase(Zoo2<T>::make(kint<KR % 6>(), c.rng, m, m)); load<2>(r2);
      if (m == 3) r2.v = vsip::prod3(a.v, a.v); else r2.v = vsip::prod4(a.v, a.v);
      dest<2>(key(nm[op]), r2, mul(xa, xa), k); same_operand<2>(key(nm[op]), a); continue;
    }
    if (op == 0) r.v = vsip::prod(a.v, b.v);
    else if (op == 1) r.v = vsip::prod(b.v, a.v);
    else if (m == 3) r.v = vsip::prod3(a.v, b.v);
    else r.v = vsip::prod4(a.v, b.v);
    want = op == 1 ? tr(mul(tr(xb), xa)) : mul(xa, xb);
    dest<1>(key(nm[op]), r, want, k);
    same_operand<2>(key(nm[op]), a); same_operand<1>(key(nm[op]), b);
  }
}
// ---- vectors -------------------------------------------------------------------
template <typename A, typename B> T jdot(A a, B b, std::true_type) { return vsip::cvjdot(a, b);}
template <typename A, typename B> T jdot(A, B, std::false_type) { return T();}
template <typename M> __attribute__((noinline)) std::vector<T> out_of(M const &m, long &r, long &c) { r = m.size(0); c = m.size(1); return readall(m);}
template <typename A> void herm_chk(A a, Arr const &x, std::true_type)
{ std::string m = cmp(readall(vsip::herm(a)), cjg(tr(x)), 1); if (!m.empty()) C->fail(key("herm"), m); else C->ok(C->label + " herm");}
template <typename A> void herm_chk(A, Arr const &, std::false_type) {}
template <int KA, int KB> __attribute__((noinline)) void vv()
{
  Ctx &c = *C;
  for (int q = 0; q < int(c.n(P_REPS)); ++q)
  {
    exact_vals = c.rng.coin(1, 3);
    int op = int(c.rng.range(0, 4));
    long n = c.rng.coin(1, 6) ? c.rng.range(20, 90) : dimn(), m = op < 2 || op == 4 ? n : dimn();
    auto a = erase(Zoo1<T>::make(kint<KA>(), c.rng, n));
    auto b = erase(Zoo1<T>::make(kint<KB>(), c.rng, m));
    static char const *nm[] = {"dot", "cvjdot", "outer", "kron", "cumsum"};
    if (op == 1 && !cplx) op = 0;
    c.begin(str(nm[op], " ", tname<T>::get(), " ", a.what, " , ", b.what, " [", n, ",", m, "]"));
    Arr xa = load<1>(a), xb = load<1>(b);
    T al = draw(1)[0];
    if (op < 2)
    {
      T got = op == 0 ? T(vsip::dot(a.v, b.v)) : jdot(a.v, b.v, is_cplx<T>());
      L w = 0; long double s = 0;
      for (long i = 0; i < n; ++i) { L p = xa.at(i) * (op ? cj(xb.at(i)) : xb.at(i)); w += p; s += std::abs(p);}
      value(key(nm[op]), got, w, s, n);
    }
    else if (op == 2 || op == 3)
    {
      long r, s; std::vector<T> got;
      if (op == 2) got = out_of(vsip::outer(al, a.v, b.v), r, s);
      else got = out_of(vsip::kron(al, a.v, b.v), s, r);
      if (r != n || s != m) { c.fail(key(nm[op]), str("shape ", r, "x", s)); continue;}
      Arr want(op == 2 ? n : m, op == 2 ? m : n);
      for (long i = 0; i < n; ++i)
        for (long j = 0; j < m; ++j)
          if (op == 2) want.add(i, j, wide(al) * xa.at(i) * cj(xb.at(j))); else want.add(j, i, wide(al) * xa.at(i) * xb.at(j));
      std::string e = cmp(got, want, 3);
      if (!e.empty()) c.fail(key(nm[op]), e); else c.ok(c.label);
    }
    else
    {
      vsip::cumsum<0>(a.v, b.v);
      Arr want(n, 1); L s = 0; long double w = 0;
      for (long i = 0; i < n; ++i) { s += xa.at(i); w += std::abs(xa.at(i)); want.x[i] = s; want.w[i] = w;}
      dest<1>(key(nm[op]), b, want, n); same_operand<1>(key(nm[op]), a); continue;
    }
    same_operand<1>(key(nm[op]), a); same_operand<1>(key(nm[op]), b);
  }
}
// ---- one matrix, maybe one vector --------------------------------------------
template <int KA, int KR, int KV> __attribute__((noinline)) void m1()
{
  Ctx &c = *C;
  for (int q = 0; q < int(c.n(P_REPS)); ++q)
  {
    exact_vals = c.rng.coin(1, 3);
    int op = int(c.rng.range(0, 6));
    static char const *nm[] = {"vmmul<0>", "vmmul<1>", "cumsum<0>", "cumsum<1>", "kron", "trans", "vmmul in expr"};
    long m = dimn(), n = dimn(), rr = m, rc = n;
    if (op == 5) { rr = n; rc = m;}
    auto a = erase(Zoo2<T>::make(kint<KA>(), c.rng, m, n));
    auto r = erase(Zoo2<T>::make(kint<KR>(), c.rng, rr, rc));
    bool second = op == 6 && c.rng.coin();
    auto v = erase(Zoo1<T>::make(kint<KV>(), c.rng, op == 1 || second ? m : n));
    c.begin(str(nm[op], " ", tname<T>::get(), " ", r.what, " = ", v.what, " , ", a.what, " [", m, "x", n, "]"));
    Arr xa = load<2>(a), xv = load<1>(v), xr = load<2>(r), want(rr, rc);
    T al = draw(1)[0];
    switch (op)
    {
      case 0: r.v = vsip::vmmul<0>(v.v, a.v); for (long i = 0; i < m; ++i) for (long j = 0; j < n; ++j) want.add(i, j, xv.at(j) * xa.at(i, j)); break;
      case 1: r.v = vsip::vmmul<1>(v.v, a.v); for (long i = 0; i < m; ++i) for (long j = 0; j < n; ++j) want.add(i, j, xv.at(i) * xa.at(i, j)); break;
      case 2: case 3:
        if (op == 2) vsip::cumsum<0>(a.v, r.v); else vsip::cumsum<1>(a.v, r.v);
        for (long i = 0; i < m; ++i) for (long j = 0; j < n; ++j)
        { if (op == 2) for (long k = 0; k <= j; ++k) want.add(i, j, xa.at(i, k)); else for (long k = 0; k <= i; ++k) want.add(i, j, xa.at(k, j));}
        break;
      case 4:
      {
        long b0 = c.rng.range(1, 3), b1 = c.rng.range(1, 3);
        auto b = erase(Zoo2<T>::make(kint<KA>(), c.rng, b0, b1));
        Arr xb = load<2>(b); long s0, s1;
        std::vector<T> got = out_of(vsip::kron(al, a.v, b.v), s0, s1);
        Arr w(m * b0, n * b1);
        for (long i = 0; i < m; ++i) for (long j = 0; j < n; ++j) for (long k = 0; k < b0; ++k) for (long l = 0; l < b1; ++l)
          w.add(i * b0 + k, j * b1 + l, wide(al) * xa.at(i, j) * xb.at(k, l));
        if (s0 != w.n[0] || s1 != w.n[1]) { c.fail(key("kron-m"), "shape"); continue;}
        std::string e = cmp(got, w, 3);
        if (!e.empty()) c.fail(key("kron-m"), e); else c.ok(c.label);
        same_operand<2>(key(nm[op]), a); continue;
      }
      case 5: r.v = vsip::trans(a.v); want = tr(xa); herm_chk(a.v, xa, is_cplx<T>()); break;
      default:
        if (second) r.v = al * vsip::vmmul<1>(v.v, a.v) + r.v; else r.v = al * vsip::vmmul<0>(v.v, a.v) + r.v;
        for (long i = 0; i < m; ++i) for (long j = 0; j < n; ++j)
        { want.add(i, j, wide(al) * xv.at(second ? i : j) * xa.at(i, j)); want.add(i, j, xr.at(i, j));}
    }
    dest<2>(key(nm[op]), r, want, 3 + (op == 2 || op == 3 ? std::max(m, n) : 0));
    same_operand<2>(key(nm[op]), a); same_operand<1>(key(nm[op]), v);
  }
}
#if P_G == 3
// modulate: frame by frame equals at once
template <int KA, int KB> __attribute__((noinline)) void mod()
{
  typedef std::complex<S> X; Ctx &c = *C;
  for (int q = 0; q < int(c.n(P_REPS)); ++q)
  {
    long n = c.rng.coin(1, 4) ? c.rng.range(20, 90) : dimn();
    auto a = erase(Zoo1<T>::make(kint<KA>(), c.rng, n));
    auto b = erase(Zoo1<X>::make(kint<KB>(), c.rng, n));
    exact_vals = false;
    c.begin(str("modulate ", tname<T>::get(), " ", b.what, " = ", a.what, " [", n, "]"));
    Arr xa = load<1>(a); b.guards(c.rng);
    S nu = S(c.rng.sym() * 3), phi = S(c.rng.sym() * 3);
    S end = vsip::modulate(a.v, nu, phi, b.v);
    long double e = n * (long double)nu + phi, slack = 8 * eps_of<S>::get() * (n * std::abs(nu) + std::abs(phi) + 1);
    if (!(std::abs(end - e) <= slack)) { c.fail(key("modulate:phase"), str("returned ", end, " expected ", double(e))); continue;}
    std::vector<X> got = b.read(); std::string m;
    for (long i = 0; i < n && m.empty(); ++i)
    {
      L w = xa.at(i) * std::polar((long double)1, i * (long double)nu + phi);
      if (!(std::abs(wide(got[i]) - w) <= 4 * slack * std::abs(xa.at(i)))) m = str("element #", i, " = ", got[i], " expected ", w);
    }
    if (m.empty()) m = b.verify(got);
    if (!m.empty()) c.fail(key("modulate"), m); else c.ok(c.label);
    same_operand<1>(key("modulate"), a);
  }
}
#endif
struct All
{
  template <int K> void operator()(kint<K>)
  {
    int const z = K / 12, a = K % 12, b = (a * 5 + z * 7 + 1) % 12, r = (a * 7 + z * 5 + 2 * (z / 3)) % 12;
#if P_G == 0
    mm<a, b, r>();
#elif P_G == 1
    mv<a, b % 10, (r + z) % 10>();
#elif P_G == 2
    m1<a, r, b % 10>();
#elif P_G == 3
    int const u = K % 10, v = (u * 3 + K / 10) % 10;
    vv<u, v>(); mod<u, (v + 1) % 10>();
#else
    int const u = K % 10, v = (u * 3 + K / 10) % 10;
    vv<u, v>();
#endif
  }
};
void vt_main(Ctx &c) { C = &c; All a; for_kinds<P_LO, P_HI>::go(a);}
