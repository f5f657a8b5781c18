// P12: convolution and correlation against their defining sums.
#include "model.hpp"
#include <vsip/signal.hpp>
#include "main.hpp"
#include <memory>
using namespace vt;
typedef P_T T; typedef scalar<T>::type S;
typedef std::complex<long double> L;
static Ctx *C;
template <typename X> L wide(X x) { return L((long double)x, 0);}
template <typename X> L wide(std::complex<X> x) { return L(x.real(), x.imag());}
static bool const integral = std::is_integral<S>::value;
static std::vector<T> draw(long n) { return integral ? rvals<T>(C->rng, n, -5, 5) : C->rng.coin(1, 3) ? rvals<T>(C->rng, n, -9, 9) : rreal<T>(C->rng, n, 2);}
typedef vsip::support_region_type RT;
static char const *rname(RT r) { return r == vsip::support_full ? "full" : r == vsip::support_same ? "same" : "min";}
static char const *sname(vsip::symmetry_type s) { return s == vsip::nonsym ? "nonsym" : s == vsip::sym_even_len_odd ? "odd" : "even";}
static long outlen(RT R, long N, long M, long D)
{ long w = R == vsip::support_full ? N + M - 1 : R == vsip::support_same ? N : N - M + 1; return (w + D - 1) / D;}
static long fold(vsip::symmetry_type s, long k) { return s == vsip::nonsym ? k : s == vsip::sym_even_len_odd ? 2 * k - 1 : 2 * k;}
// position in the given coefficients of full kernel coefficient q
static long unfold(long k, long M, long q) { return q < k ? q : M - 1 - q;}
template <int D> std::string dom_bad(char const *w, Domain<D> const &d, long const *n, bool size_only)
{
  for (int i = 0; i < D; ++i)
    if (long(d[i].size()) != n[i] || (!size_only && (d[i].first() != 0 || d[i].stride() != 1)))
      return str(w, "[", i, "] = ", sdom(d[i]), " expected ", n[i]);
  return "";
}
template <int D> Domain<D> mkdom(long const *n);
template <> Domain<1> mkdom<1>(long const *n) { return Domain<1>(n[0]);}
template <> Domain<2> mkdom<2>(long const *n) { return Domain<2>(n[0], n[1]);}
template <int D> bool compare(std::string const &key, Erased<T, D> &O, std::vector<L> const &want, std::vector<long double> const &tol)
{
  std::vector<T> got = O.read();
  if (got.size() != want.size()) { C->fail(key + ":size", str(got.size(), " expected ", want.size())); return false;}
  for (size_t i = 0; i < got.size(); ++i)
    if (!(std::abs(wide(got[i]) - want[i]) <= tol[i])) { C->fail(key, str("output #", i, " = ", got[i], " expected ", want[i], " tolerance ", double(tol[i]))); return false;}
  std::string q = O.verify(got); if (!q.empty()) { C->fail(key + ":outside", q); return false;}
  return true;
}
// y[r,c] = sum over (a,b) of term(a,b): h[a,b] x[r*D+or-a, c*D+oc-b]
static void conv_ref(std::vector<T> const &h, long const *k, vsip::symmetry_type sy, long const *M, std::vector<T> const &x, long const *N,
                     long const *off, long D, long const *P, std::vector<L> &want, std::vector<long double> &tol)
{
  for (long r = 0; r < P[0]; ++r) for (long c = 0; c < P[1]; ++c)
  {
    L y; long double w = 0;
    for (long a = 0; a < M[0]; ++a) for (long b = 0; b < M[1]; ++b)
    {
      long i = r * D + off[0] - a, j = c * D + off[1] - b;
      if (i < 0 || j < 0 || i >= N[0] || j >= N[1]) continue;
      L t = wide(h[unfold(k[0], M[0], a) * k[1] + (k[1] == 1 && M[1] == 1 ? 0 : unfold(k[1], M[1], b))]) * wide(x[i * N[1] + j]);
      y += t; w += std::abs(t);
    }
    want.push_back(y); tol.push_back(integral ? 0 : (M[0] * M[1] + 6) * 2 * eps_of<S>::get() * w);
  }
}
template <int D> struct VT;
template <> struct VT<1> { template <vsip::symmetry_type SY, RT R> struct conv { typedef vsip::Convolution<vsip::const_Vector, SY, R, T> type;}; template <RT R> struct corr { typedef vsip::Correlation<vsip::const_Vector, R, T> type;}; };
template <> struct VT<2> { template <vsip::symmetry_type SY, RT R> struct conv { typedef vsip::Convolution<vsip::const_Matrix, SY, R, T> type;}; template <RT R> struct corr { typedef vsip::Correlation<vsip::const_Matrix, R, T> type;}; };

template <int D, vsip::symmetry_type SY, RT R, int KK, int KI, int KO> __attribute__((noinline)) void conv()
{
  typedef typename VT<D>::template conv<SY, R>::type F;
  Rng &r = C->rng;
  long k[3] = {1, 1, 1}, M[3] = {1, 1, 1}, N[3] = {1, 1, 1}, P[3] = {1, 1, 1}, off[2] = {0, 0};
  long dec = r.coin(2, 5) ? 1 : r.range(1, 5);
  for (int d = 0; d < D; ++d)
  {
    k[d] = r.range(1, D == 1 ? 9 : 4); M[d] = fold(SY, k[d]);
    N[d] = r.coin(1, 4) ? M[d] : r.range(M[d], M[d] + (D == 1 ? 24 : 8));
    if (r.coin(1, 8) && R != vsip::support_min && SY != vsip::nonsym) N[d] = r.range(k[d], M[d]);   // kernel longer than the input
    P[d] = outlen(R, N[d], M[d], dec);
    off[d] = R == vsip::support_full ? 0 : R == vsip::support_same ? M[d] / 2 : M[d] - 1;
  }
  auto kern = erase(ZooD<D, T>::template mk<KK>(r, k)); auto in = erase(ZooD<D, T>::template mk<KI>(r, N)); auto o = erase(ZooD<D, T>::template mk<KO>(r, P));
  C->begin(str("conv", D, "d ", tname<T>::get(), " ", sname(SY), " ", rname(R), " kernel ", sshape(D, k), " in ", sshape(D, N), " dec ", dec, " ", kern.what, " ", in.what, " -> ", o.what));
  std::string key = str("conv", D, "d:", sname(SY), ":", rname(R));
  std::vector<T> h = draw(k[0] * k[1]); kern.guards(r); kern.setup(h);
  F f(kern.v, mkdom<D>(N), dec);
  std::string q = kern.verify(kern.values()); if (!q.empty()) C->fail(key + ":kernel-changed", q);
  q = dom_bad<D>("kernel_size", f.kernel_size(), M, false); if (q.empty()) q = dom_bad<D>("filter_order", f.filter_order(), M, false);
  if (q.empty()) q = dom_bad<D>("input_size", f.input_size(), N, false); if (q.empty()) q = dom_bad<D>("output_size", f.output_size(), P, false);
  if (q.empty() && (f.decimation() != dec || f.symmetry() != SY || f.support() != R || F::supprt != R || F::symmtry != SY)) q = "decimation, symmetry or support";
  if (!q.empty()) { C->fail(key + ":sizes", q); return;}
  kern.setup(draw(k[0] * k[1]));
  for (int call = 0; call < 3; ++call)
  {
    std::vector<T> x = draw(N[0] * N[1]); in.guards(r); in.setup(x); o.guards(r); o.setup(draw(P[0] * P[1]));
    std::vector<L> want; std::vector<long double> tol; conv_ref(h, k, SY, M, x, N, off, dec, P, want, tol);
    auto res = f(in.v, o.v);
    if (call == 0 && readall(res) != o.read()) C->fail(key + ":returned-view", "not the output");
    if (!compare<D>(key, o, want, tol)) return;
    q = in.verify(in.values()); if (!q.empty()) { C->fail(key + ":input-changed", q); return;}
    C->ok(C->label, 1 + P[0] * P[1] / 4);
  }
}
// number of products the unbiased form divides by, per dimension
static long divisor(int D, RT R, long N, long M, long n)
{
  if (R == vsip::support_min) return M;
  if (R == vsip::support_full) return n < M - 1 ? n + 1 : n >= N ? N + M - 1 - n : M;
  if (n < M / 2) return n + (M + 1) / 2;
  if (n >= N - M / 2) return D == 1 ? N - 1 + (M + 1) / 2 - n : N + M / 2 - n;   // 1-D: as C-VSIPL defines it
  return M;
}
template <int D, RT R, int KK, int KI, int KO> __attribute__((noinline)) void corr()
{
  typedef typename VT<D>::template corr<R>::type F;
  Rng &r = C->rng;
  long M[3] = {1, 1, 1}, N[3] = {1, 1, 1}, P[3] = {1, 1, 1}, sh[2] = {0, 0};
  for (int d = 0; d < D; ++d)
  {
    M[d] = r.range(1, D == 1 ? 14 : 5); N[d] = r.coin(1, 4) ? M[d] : r.range(M[d], M[d] + (D == 1 ? 24 : 8));
    P[d] = outlen(R, N[d], M[d], 1); sh[d] = R == vsip::support_full ? M[d] - 1 : R == vsip::support_same ? M[d] / 2 : 0;
  }
  auto ref = erase(ZooD<D, T>::template mk<KK>(r, M)); auto in = erase(ZooD<D, T>::template mk<KI>(r, N)); auto o = erase(ZooD<D, T>::template mk<KO>(r, P));
  C->begin(str("corr", D, "d ", tname<T>::get(), " ", rname(R), " ref ", sshape(D, M), " in ", sshape(D, N), " ", ref.what, " ", in.what, " -> ", o.what));
  std::string key = str("corr", D, "d:", rname(R));
  F f(mkdom<D>(M), mkdom<D>(N));
  std::string q = dom_bad<D>("reference_size", f.reference_size(), M, false); if (q.empty()) q = dom_bad<D>("input_size", f.input_size(), N, false);
  if (q.empty()) q = dom_bad<D>("output_size", f.output_size(), P, false); if (q.empty() && (f.support() != R || F::supprt != R)) q = "support";
  if (!q.empty()) { C->fail(key + ":sizes", q); return;}
  for (int call = 0; call < 4; ++call)
  {
    bool un = r.coin();
    if (integral) un = false;
    std::vector<T> h = draw(M[0] * M[1]), x = draw(N[0] * N[1]);
    ref.guards(r); ref.setup(h); in.guards(r); in.setup(x); o.guards(r); o.setup(draw(P[0] * P[1]));
    std::vector<L> want; std::vector<long double> tol;
    for (long a = 0; a < P[0]; ++a) for (long b = 0; b < P[1]; ++b)
    {
      L y; long double w = 0;
      for (long i = 0; i < M[0]; ++i) for (long j = 0; j < M[1]; ++j)
      {
        long u = a + i - sh[0], v = b + j - sh[1];
        if (u < 0 || v < 0 || u >= N[0] || v >= N[1]) continue;
        L t = wide(h[i * M[1] + j]) * std::conj(wide(x[u * N[1] + v])); y += t; w += std::abs(t);
      }
      long double dv = un ? (long double)divisor(D, R, N[0], M[0], a) * (D == 2 ? divisor(D, R, N[1], M[1], b) : 1) : 1;
      want.push_back(y / dv); tol.push_back(integral ? 0 : (M[0] * M[1] + 8) * 2 * eps_of<S>::get() * w / dv);
    }
    f(un ? vsip::unbiased : vsip::biased, ref.v, in.v, o.v);
    if (!compare<D>(key + (un ? ":unbiased" : ":biased"), o, want, tol)) return;
    q = in.verify(in.values()); if (q.empty()) q = ref.verify(ref.values()); if (!q.empty()) { C->fail(key + ":input-changed", q); return;}
    C->ok(C->label + (un ? " unbiased" : " biased"), 1 + P[0] * P[1] / 4);
  }
}
template <int I> struct pickR { static RT const value = I % 3 == 0 ? vsip::support_full : I % 3 == 1 ? vsip::support_same : vsip::support_min;};
template <int I> struct pickS { static vsip::symmetry_type const value = I % 3 == 0 ? vsip::nonsym : I % 3 == 1 ? vsip::sym_even_len_odd : vsip::sym_even_len_even;};
template <int LO, int HI> struct each { static void go(long n)
{
  for (long q = 0; q < n; ++q)
  {
#if P_D == 1
    conv<1, pickS<LO>::value, pickR<LO / 3>::value, (LO * 7 + 1) % 8, (LO + P_O) % 8, (LO * 3 + P_O) % 8>();
    corr<1, pickR<LO>::value, (LO * 5 + 2) % 8, (LO * 3 + P_O + 1) % 8, (LO + 3 * P_O) % 8>();
#else
    conv<2, pickS<LO>::value, pickR<LO / 3>::value, (LO * 7 + 1) % 12, (LO + P_O) % 12, (LO * 5 + P_O) % 12>();
    corr<2, pickR<LO>::value, (LO * 5 + 2) % 12, (LO * 7 + P_O + 1) % 12, (LO + 3 * P_O) % 12>();
#endif
  }
  each<LO + 1, HI>::go(n);
} };
template <int HI> struct each<HI, HI> { static void go(long) {} };
void vt_main(Ctx &c) { C = &c; each<0, 9>::go(c.n(P_REPS));}
