// P16: solver objects against the equations that define them, by residuals in long double.
#include "model.hpp"
#include <vsip/solvers.hpp>
#include "main.hpp"
#include <memory>
using namespace vt;
typedef P_T T; typedef scalar<T>::type S;
typedef std::complex<long double> L;
static bool const cx = is_cplx<T>::value;
static Ctx *C;
static L wide(float x) { return L(x, 0);}
static L wide(double x) { return L(x, 0);}
template <typename X> L wide(std::complex<X> x) { return L(x.real(), x.imag());}
static void narrow(L v, float &r) { r = float(v.real());}
static void narrow(L v, double &r) { r = double(v.real());}
template <typename X> void narrow(L v, std::complex<X> &r) { r = std::complex<X>(X(v.real()), X(v.imag()));}

// ---- dense matrices of the model ---------------------------------------------
struct M
{
  long r, c; std::vector<L> x;
  M(long a = 0, long b = 0) : r(a), c(b), x(a * b) {}
  L &operator()(long i, long j) { return x[i * c + j];}
  L operator()(long i, long j) const { return x[i * c + j];}
  long double norm() const { long double s = 0; for (auto &v : x) s += std::norm(v); return sqrtl(s);}
};
static M mul(M const &a, M const &b)
{ M r(a.r, b.c); for (long i = 0; i < a.r; ++i) for (long k = 0; k < a.c; ++k) for (long j = 0; j < b.c; ++j) r(i, j) += a(i, k) * b(k, j); return r;}
static M tr(M const &a, bool cj) { M r(a.c, a.r); for (long i = 0; i < a.r; ++i) for (long j = 0; j < a.c; ++j) r(j, i) = cj ? std::conj(a(i, j)) : a(i, j); return r;}
static M herm(M const &a) { return tr(a, true);}
static M diff(M a, M const &b) { for (size_t i = 0; i < a.x.size(); ++i) a.x[i] -= b.x[i]; return a;}
static M scale(M a, L s) { for (auto &v : a.x) v *= s; return a;}
static M eye(long n) { M r(n, n); for (long i = 0; i < n; ++i) r(i, i) = 1; return r;}
static M cols(M const &a, long lo, long n) { M r(a.r, n); for (long i = 0; i < a.r; ++i) for (long j = 0; j < n; ++j) r(i, j) = a(i, lo + j); return r;}
static M model(std::vector<T> const &v, long r, long c) { M m(r, c); for (size_t i = 0; i < v.size(); ++i) m.x[i] = wide(v[i]); return m;}
static std::vector<T> vals(M const &m) { std::vector<T> v; for (auto &x : m.x) { T t; narrow(x, t); v.push_back(t);} return v;}
static long double const EPS = eps_of<S>::get();

// the matrices a case works with, exactly representable in T
static long double rscale(Rng &r) { return r.coin(1, 4) ? ldexpl(1, int(r.range(-20, 20))) : 1;}
static M rmat(Rng &r, long m, long n, long double s = 1)
{ auto v = rreal<T>(r, m * n); M a = model(v, m, n); return scale(a, s);}
static M rankdef(Rng &r, long m, long n)
{
  if (r.coin(1, 4)) return M(m, n);
  long k = r.range(1, std::min(m, n)); std::vector<T> a = rvals<T>(r, m * k, -3, 3), b = rvals<T>(r, k * n, -3, 3);
  return mul(model(a, m, k), model(b, k, n));
}
static long len(Rng &r, long cap) { return r.coin(1, 12) ? r.range(1, 40) : r.coin(1, 8) ? 1 : r.range(1, cap);}

static std::string g_key;
static bool fits(M const &err, long double bound, char const *what, std::string const &detail)
{
  long double e = err.norm();
  if (e <= bound) return true;
  C->fail(g_key + ":" + what, str(detail, ": error ", double(e), " exceeds ", double(bound)));
  return false;
}
// an operand: given values, then required to be untouched in and around
template <typename I> bool intact(I &o, M const &m, char const *what)
{ std::string q = o.verify(vals(m)); if (q.empty()) return true; C->fail(g_key + ":" + what, str(o.what, ": ", q)); return false;}
// a result: nothing around it may change
template <typename I> bool result(I &o, M &out)
{
  auto v = o.read(); std::string q = o.verify(v);
  if (!q.empty()) { C->fail(g_key + ":outside", str(o.what, ": ", q)); return false;}
  out = model(v, out.r, out.c); return true;
}
template <int K> static auto view2(M const &m) { long n[3] = {m.r, m.c, 1}; auto o = ZooD<2, T>::template mk<K>(C->rng, n); o.guards(C->rng); o.setup(vals(m)); return o;}
template <int K> static auto out2(long r, long c) { long n[3] = {r, c, 1}; auto o = ZooD<2, T>::template mk<K>(C->rng, n); o.guards(C->rng); return o;}
static M of(vsip::Matrix<T> const &x) { return model(readall(x), long(x.size(0)), long(x.size(1)));}
template <typename V> static bool shaped(V const &x, long r, long c) { if (long(x.size(0)) == r && long(x.size(1)) == c) return true; C->fail(g_key + ":shape", str("result is ", x.size(0), "x", x.size(1), " expected ", r, "x", c)); return false;}

using vsip::mat_ntrans; using vsip::mat_trans; using vsip::mat_herm; using vsip::mat_lside; using vsip::mat_rside;
using vsip::by_reference; using vsip::by_value;
static vsip::mat_op_type const adj = is_cplx<T>::value ? mat_herm : mat_trans;
static char const *opn(vsip::mat_op_type t) { return t == mat_ntrans ? "N" : t == mat_trans ? "T" : "H";}
static M op(M const &a, vsip::mat_op_type t) { return t == mat_ntrans ? a : tr(a, t == mat_herm);}

// ---- LU -----------------------------------------------------------------------
template <vsip::mat_op_type TR, int KB, int KX> __attribute__((noinline)) bool lu_ref(vsip::lud<T, by_reference> &s, M const &a)
{
  M b = rmat(C->rng, a.r, C->rng.range(1, 4)), x(b.r, b.c); auto vb = view2<KB>(b); auto vx = out2<KX>(b.r, b.c);
  if (!s.template solve<TR>(vb.v, vx.v)) { C->fail(g_key + ":solve-refused", opn(TR)); return false;}
  return intact(vb, b, "operand") && result(vx, x) && fits(diff(mul(op(a, TR), x), b), 60 * a.r * EPS * (a.norm() * x.norm() + b.norm()), "solve", str(opn(TR), " rhs ", b.c, " ", vb.what, " -> ", vx.what));
}
template <vsip::mat_op_type TR, int KB> __attribute__((noinline)) bool lu_val(vsip::lud<T, by_value> &s, M const &a)
{
  M b = rmat(C->rng, a.r, C->rng.range(1, 4)); auto vb = view2<KB>(b); auto r = s.template solve<TR>(vb.v);
  if (!shaped(r, b.r, b.c)) return false; M x = of(r);
  return intact(vb, b, "operand") && fits(diff(mul(op(a, TR), x), b), 60 * a.r * EPS * (a.norm() * x.norm() + b.norm()), "solve-value", str(opn(TR), " rhs ", b.c, " ", vb.what));
}
template <int KA, int KB, int KX> __attribute__((noinline)) void lu_case()
{
  Rng &r = C->rng; long n = len(r, 8); g_key = str("lu:", tname<T>::get());
  struct O { vsip::lud<T, by_reference> s; vsip::lud<T, by_value> v; M a; bool have;
             O(long n) : s(n), v(n), have(false) {} O(O const &o) : s(o.s), v(o.v), a(o.a), have(o.have) {}
             O &operator=(O const &o) { s = o.s; v = o.v; a = o.a; have = o.have; return *this;} };
  std::vector<std::unique_ptr<O>> pool; for (int i = 0; i < 3; ++i) pool.emplace_back(new O(n));
  std::string h; C->begin(str("lu ", tname<T>::get(), " n=", n));
  for (int step = 0; step < 8; ++step)
  {
    size_t w = r.range(0, 2), u = r.range(0, 2); O &o = *pool[w];
    if (long(o.s.length()) != n || long(o.v.length()) != n) { C->fail(g_key + ":length", h); return;}
    int what = int(r.range(0, 5)); h += str(" ", what, "@", w);
    if (what == 0 || !o.have)
    {
      M a = rmat(r, n, n, rscale(r)); bool sing = r.coin(1, 6);
      if (sing) { long k = r.range(0, n - 1); bool row = r.coin(); for (long i = 0; i < n; ++i) (row ? a(k, i) : a(i, k)) = 0;}
      auto va = view2<KA>(a); bool ok1 = o.s.decompose(va.v); if (!result(va, a)) return;
      M a2 = a; (void)a2; auto vb = view2<KA>(model(vals(a), n, n)); bool ok2 = o.v.decompose(vb.v);
      if (ok1 != !sing || ok2 != !sing) { C->fail(g_key + ":status", str(sing ? "singular matrix accepted" : "regular matrix refused", h)); return;}
      o.have = !sing; o.a = a; C->ok(str("lu", n, sing ? "s" : "r", va.what, h)); continue;
    }
    if (what == 1) { pool[u].reset(new O(o)); h += "c"; continue;}
    if (what == 2) { if (u != w) *pool[u] = o; h += "="; continue;}
    bool good = r.coin() ? (r.coin() ? lu_ref<mat_ntrans, KB, KX>(o.s, o.a) : r.coin() && cx ? lu_ref<cx ? mat_herm : mat_trans, KB, KX>(o.s, o.a) : lu_ref<mat_trans, KB, KX>(o.s, o.a))
                         : (r.coin() ? lu_val<mat_ntrans, KB>(o.v, o.a) : r.coin() && cx ? lu_val<cx ? mat_herm : mat_trans, KB>(o.v, o.a) : lu_val<mat_trans, KB>(o.v, o.a));
    if (!good) return;
    C->ok(str("lu", n, KB, ",", KX, h));
  }
}
// ---- Cholesky -------------------------------------------------------------------
template <int KA, int KB, int KX> __attribute__((noinline)) void chol_case()
{
  Rng &r = C->rng; long n = len(r, 8); g_key = str("chol:", tname<T>::get());
  struct O { vsip::chold<T, by_reference> s; vsip::chold<T, by_value> v; M a; bool have, up;
             O(long n, bool u) : s(u ? vsip::upper : vsip::lower, n), v(u ? vsip::upper : vsip::lower, n), have(false), up(u) {} };
  std::vector<std::unique_ptr<O>> pool; for (int i = 0; i < 3; ++i) pool.emplace_back(new O(n, r.coin()));
  std::string h; C->begin(str("chol ", tname<T>::get(), " n=", n));
  for (int step = 0; step < 8; ++step)
  {
    size_t w = r.range(0, 2), u = r.range(0, 2); O &o = *pool[w];
    if (long(o.s.length()) != n || long(o.v.length()) != n || o.s.uplo() != (o.up ? vsip::upper : vsip::lower) || o.v.uplo() != o.s.uplo()) { C->fail(g_key + ":attributes", h); return;}
    int what = int(r.range(0, 5)); h += str(" ", what, "@", w, o.up ? "u" : "l");
    if (what == 0 || !o.have)
    {
      M g = rmat(r, n, n), a = mul(g, herm(g)); for (long i = 0; i < n; ++i) a(i, i) += 0.5L * n;
      a = scale(a, rscale(r)); a = model(vals(a), n, n);
      for (long i = 0; i < n; ++i) { a(i, i) = a(i, i).real(); for (long j = 0; j < i; ++j) a(i, j) = std::conj(a(j, i));}
      bool bad = r.coin(1, 6);
      if (bad) { long k = r.range(0, n - 1); a(k, k) = r.coin() ? 0 : -a(k, k);}
      M full = a;
      if (!bad && r.coin()) for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) if (o.up ? i > j : i < j) { T t = gen<T>::small(r); a(i, j) = wide(t);}   // the other triangle is not referenced
      auto va = view2<KA>(a); bool ok1 = o.s.decompose(va.v); M t(n, n); if (!result(va, t)) return;
      auto vb = view2<KA>(a); bool ok2 = o.v.decompose(vb.v);
      if (ok1 != !bad || ok2 != !bad) { C->fail(g_key + ":status", str(bad ? "indefinite matrix accepted" : "positive definite matrix refused", h)); return;}
      o.have = !bad; o.a = full; C->ok(str("ch", n, bad, va.what, h)); continue;
    }
    if (what == 1) { pool[u].reset(new O(o)); h += "c"; continue;}
    if (what == 2) { if (u != w) *pool[u] = o; h += "="; continue;}
    M b = rmat(r, n, r.range(1, 4)), x(b.r, b.c); auto vb = view2<KB>(b); std::string d;
    if (r.coin())
    { auto vx = out2<KX>(b.r, b.c); if (!o.s.solve(vb.v, vx.v)) { C->fail(g_key + ":solve-refused", h); return;} if (!result(vx, x)) return; d = "->" + vx.what;}
    else { auto v = o.v.solve(vb.v); if (!shaped(v, b.r, b.c)) return; x = of(v); d = "by value";}
    if (!intact(vb, b, "operand") || !fits(diff(mul(o.a, x), b), 60 * n * EPS * (o.a.norm() * x.norm() + b.norm()), "solve", vb.what + d + h)) return;
    C->ok(str("ch", n, vb.what, d, h));
  }
}
// ---- QR --------------------------------------------------------------------------
template <vsip::mat_op_type TR, vsip::product_side_type PS, int KB, int KX> __attribute__((noinline)) bool qr_prod(vsip::qrd<T, by_reference> &s, vsip::qrd<T, by_value> &sv, M const &q, std::string const &h)
{
  Rng &r = C->rng; M o = op(q, TR); long k = r.range(1, 4); M b = PS == mat_lside ? rmat(r, o.c, k) : rmat(r, k, o.r), want = PS == mat_lside ? mul(o, b) : mul(b, o), x(want.r, want.c);
  auto vb = view2<KB>(b); std::string d = str("prodq ", opn(TR), PS == mat_lside ? "L " : "R ", vb.what);
  if (r.coin())
  { auto vx = out2<KX>(want.r, want.c); if (!s.template prodq<TR, PS>(vb.v, vx.v)) { C->fail(g_key + ":prodq-refused", d); return false;} if (!result(vx, x)) return false; d += "->" + vx.what;}
  else { auto v = sv.template prodq<TR, PS>(vb.v); if (!shaped(v, want.r, want.c)) return false; x = of(v); d += " by value";}
  if (!intact(vb, b, "operand") || !fits(diff(x, want), 60 * (q.r + 3) * EPS * (b.norm() + 1e-300L), "prodq", d + h)) return false;
  C->ok(d + h); return true;
}
template <vsip::mat_op_type TR, int KB, int KX> __attribute__((noinline)) bool qr_rsol(vsip::qrd<T, by_reference> &s, vsip::qrd<T, by_value> &sv, M const &R, std::string const &h)
{
  Rng &r = C->rng; M b = rmat(r, R.c, r.range(1, 4)), x(b.r, b.c); auto vb = view2<KB>(b); T alpha = r.coin(1, 3) ? T(1) : gen<T>::small(r, 1, 9); std::string d = str("rsol ", opn(TR), " alpha ", alpha, " ", vb.what);
  if (r.coin())
  { auto vx = out2<KX>(b.r, b.c); if (!s.template rsol<TR>(vb.v, alpha, vx.v)) { C->fail(g_key + ":rsol-refused", d); return false;} if (!result(vx, x)) return false; d += "->" + vx.what;}
  else { auto v = sv.template rsol<TR>(vb.v, alpha); if (!shaped(v, b.r, b.c)) return false; x = of(v); d += " by value";}
  if (!intact(vb, b, "operand") || !fits(diff(mul(op(R, TR), x), scale(b, wide(alpha))), 100 * (R.r + 3) * EPS * (R.norm() * x.norm() + std::abs(wide(alpha)) * b.norm()), "rsol", d + h)) return false;
  C->ok(d + h); return true;
}
static bool cov_ok(M const &a, M const &b, M const &x, std::string const &d)
{ long double na = a.norm(); return fits(diff(mul(herm(a), mul(a, x)), b), 200 * (a.r + 3) * EPS * (na * na * x.norm() + b.norm()), "covsol", d);}
static bool lsq_ok(M const &a, M const &b, M const &x, std::string const &d)
{ long double na = a.norm(); M res = diff(mul(a, x), b); return fits(mul(herm(a), res), 200 * (a.r + 3) * EPS * na * (na * x.norm() + b.norm() + res.norm()), "lsqsol", d);}
template <int KA, int KB, int KX> __attribute__((noinline)) void qr_case()
{
  Rng &r = C->rng; long n = len(r, 7), m = r.coin(1, 3) ? n : n + r.range(1, 6); g_key = str("qr:", tname<T>::get());
  vsip::storage_type const kinds[] = {vsip::qrd_nosaveq, vsip::qrd_saveq1, vsip::qrd_saveq};
  struct O { vsip::qrd<T, by_reference> s; vsip::qrd<T, by_value> v; M a, q, R; bool have; vsip::storage_type st;
             O(long m, long n, vsip::storage_type t) : s(m, n, t), v(m, n, t), have(false), st(t) {} };
  std::vector<std::unique_ptr<O>> pool; for (int i = 0; i < 2; ++i) pool.emplace_back(new O(m, n, kinds[r.range(0, 2)]));
  std::string h; C->begin(str("qr ", tname<T>::get(), " ", m, "x", n));
  for (int step = 0; step < 8; ++step)
  {
    size_t w = r.range(0, 1); O &o = *pool[w];
    if (long(o.s.rows()) != m || long(o.s.columns()) != n || o.s.qstorage() != o.st || long(o.v.rows()) != m || long(o.v.columns()) != n || o.v.qstorage() != o.st) { C->fail(g_key + ":attributes", h); return;}
    int what = int(r.range(0, 9)); h += str(" ", what, "@", w, o.st == vsip::qrd_nosaveq ? "n" : o.st == vsip::qrd_saveq ? "f" : "1");
    if (what == 0 || !o.have)
    {
      M a = rmat(r, m, n, rscale(r)); for (long i = 0; i < n; ++i) a(i, i) += a.norm() > 0 ? a.norm() * 0.25L : 1.0L; a = model(vals(a), m, n);
      o.a = a; o.have = true;
      auto va = view2<KA>(a); bool ok1 = o.s.decompose(va.v); M t(m, n); if (!result(va, t)) return;
      auto vb = view2<KA>(a); bool ok2 = o.v.decompose(vb.v);
      if (!ok1 || !ok2) { C->fail(g_key + ":status", h); return;}
      if (o.st == vsip::qrd_nosaveq) { o.q = M(); o.R = M();}
      else
      {
        long c = o.st == vsip::qrd_saveq ? m : n; vsip::Matrix<T> I(c, c, T()); for (long i = 0; i < c; ++i) I.put(i, i, T(1));
        vsip::Matrix<T> q(m, c); o.s.template prodq<mat_ntrans, mat_lside>(I, q); o.q = of(q);
        if (!fits(diff(mul(herm(o.q), o.q), eye(c)), 40 * (m + 3) * EPS, "orthogonal", h)) return;
        M f = mul(herm(o.q), a), low = f; for (long i = 0; i < f.r; ++i) for (long j = i; j < f.c; ++j) low(i, j) = 0;
        if (!fits(low, 60 * (m + 3) * EPS * a.norm(), "triangular", h)) return;
        o.R = M(n, n); for (long i = 0; i < n; ++i) for (long j = i; j < n; ++j) o.R(i, j) = f(i, j);
        if (!fits(diff(mul(cols(o.q, 0, n), o.R), a), 60 * (m + 3) * EPS * a.norm(), "factors", h)) return;
      }
      C->ok(str("qr", m, "x", n, va.what, h)); continue;
    }
    bool good = true;
    if (what == 1) { std::unique_ptr<O> p(new O(o)); pool[1 - w] = std::move(p); h += "c"; continue;}
    if (what == 2) { *pool[1 - w] = o; h += "="; continue;}
    if (what == 3)
    {
      M b = rmat(r, n, r.range(1, 4)), x(b.r, b.c); auto vb = view2<KB>(b); std::string d = "covsol " + vb.what;
      if (r.coin()) { auto vx = out2<KX>(b.r, b.c); o.s.covsol(vb.v, vx.v); if (!result(vx, x)) return; d += "->" + vx.what;}
      else { auto v = o.v.covsol(vb.v); if (!shaped(v, b.r, b.c)) return; x = of(v); d += " by value";}
      good = intact(vb, b, "operand") && cov_ok(o.a, b, x, d + h); if (good) C->ok(d + h);
    }
    else if (what == 4 && o.st != vsip::qrd_nosaveq)
    {
      M b = rmat(r, m, r.range(1, 4)), x(n, b.c); auto vb = view2<KB>(b); std::string d = "lsqsol " + vb.what;
      if (r.coin()) { auto vx = out2<KX>(n, b.c); o.s.lsqsol(vb.v, vx.v); if (!result(vx, x)) return; d += "->" + vx.what;}
      else { auto v = o.v.lsqsol(vb.v); if (!shaped(v, n, b.c)) return; x = of(v); d += " by value";}
      good = intact(vb, b, "operand") && lsq_ok(o.a, b, x, d + h); if (good) C->ok(d + h);
    }
    else if (what <= 6)
    {
      if (o.st == vsip::qrd_nosaveq)
      { // R is only visible through its equations
        vsip::Matrix<T> b(n, 1), y(n, 1), x(n, 1); M mb = rmat(r, n, 1); writeall(b, vals(mb));
        o.s.template rsol<adj>(b, T(1), y); o.s.template rsol<mat_ntrans>(y, T(1), x);
        good = cov_ok(o.a, mb, of(x), "two rsol" + h);
      }
      else good = r.coin() ? qr_rsol<mat_ntrans, KB, KX>(o.s, o.v, o.R, h) : qr_rsol<adj, KB, KX>(o.s, o.v, o.R, h);
    }
    else if (o.st != vsip::qrd_nosaveq)
      switch (r.range(0, 3))
      {
      case 0: good = qr_prod<mat_ntrans, mat_lside, KB, KX>(o.s, o.v, o.q, h); break;
      case 1: good = qr_prod<adj, mat_lside, KB, KX>(o.s, o.v, o.q, h); break;
      case 2: good = qr_prod<mat_ntrans, mat_rside, KB, KX>(o.s, o.v, o.q, h); break;
      default: good = qr_prod<adj, mat_rside, KB, KX>(o.s, o.v, o.q, h);
      }
    if (!good) return;
  }
}
// ---- free functions ---------------------------------------------------------------
template <int KA, int KB, int KX> __attribute__((noinline)) void free_case()
{
  Rng &r = C->rng; long n = len(r, 7), m = r.coin(1, 3) ? n : n + r.range(1, 6), k = r.range(1, 4); bool cov = r.coin();
  g_key = str(cov ? "covsol:" : "llsqsol:", tname<T>::get());
  M a = rmat(r, m, n, rscale(r)); for (long i = 0; i < n; ++i) a(i, i) += a.norm() > 0 ? a.norm() * 0.25L : 1.0L; a = model(vals(a), m, n);
  M b = rmat(r, cov ? n : m, k), x(n, k); auto va = view2<KA>(a); auto vb = view2<KB>(b); auto vx = out2<KX>(n, k);
  std::string d = str(cov ? "covsol " : "llsqsol ", tname<T>::get(), " ", m, "x", n, " rhs ", k, " ", va.what, " ", vb.what); bool val = r.coin(1, 3); C->begin(d);
  if (val) { auto v = cov ? vsip::covsol(va.v, vb.v) : vsip::llsqsol(va.v, vb.v); if (!shaped(v, n, k)) return; x = of(v); d += " by value";}
  else
  {
    auto z = cov ? vsip::covsol(va.v, vb.v, vx.v) : vsip::llsqsol(va.v, vb.v, vx.v);
    if (!result(vx, x)) return; d += "->" + vx.what;
    if (!shaped(z, n, k) || model(readall(z), n, k).x != x.x) { C->fail(g_key + ":returned", "the returned view does not show the solution"); return;}
  }
  M t(m, n); if (!result(va, t) || !intact(vb, b, "operand")) return;
  if (cov ? cov_ok(a, b, x, d) : lsq_ok(a, b, x, d)) C->ok(d);
}
template <int K> static auto view1(M const &m) { long n[3] = {m.r, 1, 1}; auto o = ZooD<1, T>::template mk<K>(C->rng, n); o.guards(C->rng); o.setup(vals(m)); return o;}
template <int KA, int KB, int KX> __attribute__((noinline)) void toep_case()
{
  Rng &r = C->rng; long n = len(r, 9); g_key = str("toepsol:", tname<T>::get()); M t(n, 1), b = rmat(r, n, 1), x(n, 1);
  bool sing = n > 1 && r.coin(1, 8); long double s = rscale(r);
  if (sing) { T v = gen<T>::small(r, 1, 5); for (long i = 0; i < n; ++i) t(i, 0) = std::abs(wide(v).real());}
  else
  {
    t = rmat(r, n, 1, s); long double sum = 0; for (long i = 1; i < n; ++i) sum += std::abs(t(i, 0));
    t(0, 0) = 1.2L * sum + 0.25L * s;                 // diagonally dominant, so positive definite
    if (r.coin(1, 3) && n > 1)
    { // the autocorrelation of a few tones in noise
      t = M(n, 1); for (int q = 0; q < 3; ++q) { long double p = r.unit(), f = cx ? 6 * r.unit() : 0; for (long i = 0; i < n; ++i) t(i, 0) += cx ? p * L(cosl(f * i), sinl(f * i)) : L(p * cosl(1.3L * q * i), 0);}
      t(0, 0) += 1;
    }
    t = model(vals(t), n, 1); t(0, 0) = t(0, 0).real();
  }
  M A(n, n); for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) A(i, j) = j >= i ? t(j - i, 0) : std::conj(t(i - j, 0));
  auto vt_ = view1<KA>(t); auto vb = view1<KB>(b); auto vy = view1<KX>(M(n, 1)); auto vx = view1<KA>(M(n, 1));
  std::string d = str("toepsol ", tname<T>::get(), " n=", n, sing ? " singular " : " ", vt_.what, " ", vb.what, " work ", vy.what); C->begin(d);
  bool thrown = false, val = r.coin(1, 3);
  try
  {
    if (val) { auto v = vsip::toepsol(vt_.v, vb.v, vy.v); x = model(readall(v), n, 1); d += " by value";}
    else
    {
      auto z = vsip::toepsol(vt_.v, vb.v, vy.v, vx.v); if (!result(vx, x)) return; d += "->" + vx.what;
      if (model(readall(z), n, 1).x != x.x) { C->fail(g_key + ":returned", "the returned view does not show the solution"); return;}
    }
  }
  catch (vsip::computation_error const &) { thrown = true;}
  if (thrown != sing) { C->fail(g_key + ":status", str(sing ? "a matrix of equal elements was accepted " : "a positive definite matrix was refused ", d)); return;}
  M y(n, 1); if (!result(vy, y) || !intact(vt_, t, "operand") || !intact(vb, b, "operand")) return;
  if (sing || fits(diff(mul(A, x), b), 3000 * n * EPS * (A.norm() * x.norm() + b.norm()), "solve", d)) C->ok(d);
}
// ---- SVD ---------------------------------------------------------------------------
template <bool U, vsip::mat_op_type TR, vsip::product_side_type PS, int KB, int KX> __attribute__((noinline)) bool sv_prod(vsip::svd<T, by_reference> &s, vsip::svd<T, by_value> &sv, M const &q, std::string const &h)
{
  Rng &r = C->rng; M o = op(q, TR); long k = r.range(1, 4); M b = PS == mat_lside ? rmat(r, o.c, k) : rmat(r, k, o.r), want = PS == mat_lside ? mul(o, b) : mul(b, o), x(want.r, want.c);
  auto vb = view2<KB>(b); std::string d = str(U ? "produ " : "prodv ", opn(TR), PS == mat_lside ? "L " : "R ", vb.what);
  if (r.coin())
  {
    auto vx = out2<KX>(want.r, want.c);
    if (!(U ? s.template produ<TR, PS>(vb.v, vx.v) : s.template prodv<TR, PS>(vb.v, vx.v))) { C->fail(g_key + ":product-refused", d); return false;}
    if (!result(vx, x)) return false; d += "->" + vx.what;
  }
  else { auto v = U ? sv.template produ<TR, PS>(vb.v) : sv.template prodv<TR, PS>(vb.v); if (!shaped(v, want.r, want.c)) return false; x = of(v); d += " by value";}
  if (!intact(vb, b, "operand") || !fits(diff(x, want), 60 * (q.r + 3) * EPS * (b.norm() + 1e-300L), U ? "produ" : "prodv", d + h)) return false;
  C->ok(d + h); return true;
}
template <bool U, int KB, int KX> __attribute__((noinline)) bool sv_use(vsip::svd<T, by_reference> &s, vsip::svd<T, by_value> &sv, M const &q, std::string const &h)
{
  Rng &r = C->rng;
  switch (r.range(0, 4))
  {
  case 0: return sv_prod<U, mat_ntrans, mat_lside, KB, KX>(s, sv, q, h);
  case 1: return sv_prod<U, adj, mat_lside, KB, KX>(s, sv, q, h);
  case 2: return sv_prod<U, mat_ntrans, mat_rside, KB, KX>(s, sv, q, h);
  case 3: return sv_prod<U, adj, mat_rside, KB, KX>(s, sv, q, h);
  }
  long lo = r.range(0, q.c - 1), hi = r.range(lo, q.c - 1); M want = cols(q, lo, hi - lo + 1), x(want.r, want.c); std::string d = str(U ? "u(" : "v(", lo, ",", hi, ")");
  if (r.coin())
  { auto vx = out2<KX>(want.r, want.c); if (!(U ? s.u(lo, hi, vx.v) : s.v(lo, hi, vx.v))) { C->fail(g_key + ":columns-refused", d); return false;} if (!result(vx, x)) return false; d += "->" + vx.what;}
  else { auto v = U ? sv.u(lo, hi) : sv.v(lo, hi); if (!shaped(v, want.r, want.c)) return false; x = of(v); d += " by value";}
  if (!fits(diff(x, want), 60 * (q.r + 3) * EPS, U ? "u" : "v", d + h)) return false;
  C->ok(d + h); return true;
}
template <int KA, int KB, int KX> __attribute__((noinline)) void svd_case()
{
  Rng &r = C->rng; long n = len(r, 7), m = r.coin(1, 4) ? n : len(r, 9), p = std::min(m, n); g_key = str("svd:", tname<T>::get());
  vsip::storage_type const kinds[] = {vsip::svd_uvnos, vsip::svd_uvpart, vsip::svd_uvfull};
  struct O { vsip::svd<T, by_reference> s; vsip::svd<T, by_value> v; M a, u, vv; bool have; vsip::storage_type us, vs;
             O(long m, long n, vsip::storage_type a, vsip::storage_type b) : s(m, n, a, b), v(m, n, a, b), have(false), us(a), vs(b) {} };
  vsip::storage_type us = kinds[r.range(0, 2)], vs = kinds[r.range(0, 2)];
  std::vector<std::unique_ptr<O>> pool; for (int i = 0; i < 2; ++i) pool.emplace_back(new O(m, n, us, vs));
  std::string h; C->begin(str("svd ", tname<T>::get(), " ", m, "x", n, " u", us, " v", vs));
  for (int step = 0; step < 8; ++step)
  {
    size_t w = r.range(0, 1); O &o = *pool[w];
    if (long(o.s.rows()) != m || long(o.s.columns()) != n || o.s.ustorage() != us || o.s.vstorage() != vs ||
        long(o.v.rows()) != m || long(o.v.columns()) != n || o.v.ustorage() != us || o.v.vstorage() != vs) { C->fail(g_key + ":attributes", h); return;}
    int what = int(r.range(0, 7)); h += str(" ", what, "@", w);
    if (what == 0 || !o.have)
    {
      M a = r.coin(1, 5) ? rankdef(r, m, n) : rmat(r, m, n, rscale(r)); a = model(vals(a), m, n); o.a = a; o.have = true;
      auto va = view2<KA>(a); long dn[3] = {p, 1, 1}; auto vd = ZooD<1, S>::template mk<KB % 10>(r, dn); vd.guards(r);
      if (!o.s.decompose(va.v, vd.v)) { C->fail(g_key + ":status", h); return;}
      M t(m, n); if (!result(va, t)) return;
      auto dv = vd.read(); std::string q = vd.verify(dv); if (!q.empty()) { C->fail(g_key + ":outside", q); return;}
      auto vb = view2<KA>(a); auto d2 = o.v.decompose(vb.v); std::vector<S> dw = readall(d2);
      if (dv != dw) { C->fail(g_key + ":determinate", "two decompositions of one matrix give different singular values"); return;}
      long double sum = 0; for (long i = 0; i < p; ++i) { sum += (long double)dv[i] * dv[i]; if (!(dv[i] >= 0) || (i && dv[i] > dv[i - 1])) { C->fail(g_key + ":order", str("singular value ", i, " = ", dv[i], h)); return;}}
      long double na = a.norm(); M e(1, 1); e(0, 0) = sqrtl(sum) - na; if (!fits(e, 60 * (m + n) * EPS * na, "norm", h)) return;
      // the vectors, as the object shows them
      o.u = M(); o.vv = M();
      if (us != vsip::svd_uvnos) { auto x = o.v.u(0, (us == vsip::svd_uvfull ? m : p) - 1); o.u = of(x); vsip::Matrix<T> y(m, o.u.c); o.s.u(0, o.u.c - 1, y);
                                   if (!fits(diff(mul(herm(o.u), o.u), eye(o.u.c)), 60 * (m + n) * EPS, "u-orthogonal", h) || !fits(diff(of(y), o.u), 0, "u-determinate", h)) return;}
      if (vs != vsip::svd_uvnos) { auto x = o.v.v(0, (vs == vsip::svd_uvfull ? n : p) - 1); o.vv = of(x); vsip::Matrix<T> y(n, o.vv.c); o.s.v(0, o.vv.c - 1, y);
                                   if (!fits(diff(mul(herm(o.vv), o.vv), eye(o.vv.c)), 60 * (m + n) * EPS, "v-orthogonal", h) || !fits(diff(of(y), o.vv), 0, "v-determinate", h)) return;}
      if (us != vsip::svd_uvnos)
      { // U^H A A^H U = S^2, the rest of a full U being orthogonal to A
        M g = mul(herm(o.u), a), gg = mul(g, herm(g)); for (long i = 0; i < p; ++i) gg(i, i) -= (long double)dv[i] * dv[i];
        if (!fits(gg, 100 * (m + n) * EPS * na * na, "u-equation", h)) return;
      }
      if (vs != vsip::svd_uvnos)
      {
        M g = mul(a, o.vv), gg = mul(herm(g), g); for (long i = 0; i < p; ++i) gg(i, i) -= (long double)dv[i] * dv[i];
        if (!fits(gg, 100 * (m + n) * EPS * na * na, "v-equation", h)) return;
      }
      if (us != vsip::svd_uvnos && vs != vsip::svd_uvnos)
      {
        M usv(m, p); for (long i = 0; i < m; ++i) for (long j = 0; j < p; ++j) usv(i, j) = o.u(i, j) * (long double)dv[j];
        if (!fits(diff(mul(usv, herm(cols(o.vv, 0, p))), a), 60 * (m + n) * EPS * na, "factors", h)) return;
      }
      C->ok(str("svd", m, "x", n, us, vs, va.what, vd.what, h)); continue;
    }
    if (what == 1) { std::unique_ptr<O> q(new O(o)); pool[1 - w] = std::move(q); h += "c"; continue;}
    if (what == 2) { *pool[1 - w] = o; h += "="; continue;}
    bool useu = r.coin();
    if (useu && us != vsip::svd_uvnos) { if (!sv_use<true, KB, KX>(o.s, o.v, o.u, h)) return;}
    else if (vs != vsip::svd_uvnos) { if (!sv_use<false, KB, KX>(o.s, o.v, o.vv, h)) return;}
  }
}
template <int LO, int HI> struct each { static void go(long n)
{
  int const Q = LO + P_SHIFT, KA = Q * 5 % 12, KB = (Q * 7 + 3) % 12, KX = (Q * 11 + 1) % 12;
  for (long q = 0; q < n; ++q)
  {
#if P_PART == 0
    lu_case<KA, KB, KX>(); chol_case<KB, KX, KA>(); toep_case<KA % 10, KB % 10, KX % 10>();
#elif P_PART == 1
    qr_case<KA, KB, KX>(); free_case<KX, KA, KB>();
#else
    svd_case<KA, KB, KX>();
#endif
  }
  each<LO + 1, HI>::go(n);
} };
template <int HI> struct each<HI, HI> { static void go(long) {} };
void vt_main(Ctx &c) { C = &c; each<0, 7>::go(c.n(P_REPS));}
