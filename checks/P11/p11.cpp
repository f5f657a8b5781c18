// P11: FIR and IIR filters as streams, against their defining recurrences.
#include "model.hpp"
#include <vsip/impl/signal/fir.hpp>
#include <vsip/impl/signal/iir.hpp>
#include "main.hpp"
#include <memory>
using namespace vt;
typedef P_T T; typedef scalar<T>::type S;
typedef std::complex<long double> L;
static Ctx *C;
template <typename X> L wide(X x) { return L((long double)x, 0);}
template <typename X> L wide(std::complex<X> x) { return L(x.real(), x.imag());}
static bool exact() { return C->seed && std::is_integral<S>::value;}
static std::vector<T> draw(long n) { return std::is_integral<S>::value ? rvals<T>(C->rng, n, -5, 5) : C->rng.coin(1, 3) ? rvals<T>(C->rng, n, -9, 9) : rreal<T>(C->rng, n, 2);}

// one filter object: what it has been fed since it started afresh
template <typename F> struct Obj { std::unique_ptr<F> f; std::vector<T> hist; };

static bool check(std::string const &key, std::vector<T> const &got, std::vector<L> const &want, std::vector<long double> const &tol, long n)
{
  for (long i = 0; i < n; ++i)
    if (!(std::abs(wide(got[i]) - want[i]) <= tol[i])) { C->fail(key, str("output #", i, " = ", got[i], " expected ", want[i], " tolerance ", double(tol[i]))); return false;}
  return true;
}
// the whole object life, with input and output in given storage forms
template <vsip::symmetry_type SY, vsip::obj_state ST, int KK, int KI, int KO> __attribute__((noinline)) void fir()
{
  typedef vsip::Fir<T, SY, ST, 0> F;
  Rng &r = C->rng;
  long dec = r.coin(1, 3) ? 1 : r.range(1, 6);
  long k = r.range(1, 14);
  auto order = [&](long kk) { return SY == vsip::nonsym ? kk : SY == vsip::sym_even_len_even ? 2 * kk : 2 * kk - 1;};
  while (order(k) <= dec || k < 2) ++k;
  long M = order(k), n = r.coin(1, 5) ? M - 1 : r.range(M - 1, M + 40);
  if (r.coin(1, 3)) n = std::max(n / dec * dec, (M + dec - 2) / dec * dec);   // frames of a whole number of outputs
  long out = (n + dec - 1) / dec;
  auto kern = erase(Zoo1<T>::make(kint<KK>(), r, k));
  std::vector<T> h = draw(k); kern.guards(r); kern.setup(h);
  std::vector<T> full(M);
  for (long i = 0; i < k; ++i) { full[i] = h[i]; if (SY != vsip::nonsym) full[M - 1 - i] = h[i];}
  auto in = erase(Zoo1<T>::make(kint<KI>(), r, n)); auto in2 = erase(Zoo1<T>::make(kint<(KI + 3) % 8>(), r, n));
  auto o = erase(Zoo1<T>::make(kint<KO>(), r, out)); auto o2 = erase(Zoo1<T>::make(kint<(KO + 5) % 8>(), r, out));
  C->begin(str("fir ", tname<T>::get(), SY == vsip::nonsym ? " nonsym" : SY == vsip::sym_even_len_odd ? " odd" : " even", ST == vsip::state_save ? " save" : " nosave", " kernel ", k,
               " in ", n, " dec ", dec, " ", kern.what, " ", in.what, " -> ", o.what));
  std::string key = str("fir:", SY == vsip::nonsym ? "nonsym" : SY == vsip::sym_even_len_odd ? "odd" : "even", ST == vsip::state_save ? ":save" : ":nosave");
  std::vector<Obj<F>> os;
  os.push_back(Obj<F>()); os[0].f.reset(new F(kern.v, n, dec));
  { F &f = *os[0].f;
    if (long(f.kernel_size()) != M || long(f.filter_order()) != M || long(f.input_size()) != n || long(f.output_size()) != out || long(f.decimation()) != dec || f.continuous_filtering() != ST)
      C->fail(key + ":sizes", str(f.kernel_size(), " ", f.filter_order(), " ", f.input_size(), " ", f.output_size(), " ", f.decimation())); }
  kern.setup(draw(k));                   // the filter has its own copy of the kernel
  std::string trace;
  for (int step = 0; step < 12; ++step)
  {
    size_t i = r.range(0, long(os.size()) - 1); int op = int(r.range(0, 9));
    if (op == 0 && os.size() < 4) { size_t b = os.size(); os.push_back(Obj<F>()); os[b].f.reset(new F(*os[i].f)); os[b].hist = os[i].hist; trace += str("c", i); continue;}
    if (op == 1 && os.size() > 1) { size_t j = r.range(0, long(os.size()) - 1); *os[j].f = *os[i].f; os[j].hist = os[i].hist; trace += str("=", j, i); continue;}
    if (op == 2) { os[i].f->reset(); os[i].hist.clear(); trace += str("r", i); continue;}
    if (op == 3 && os.size() > 1) { os.erase(os.begin() + i); trace += str("d", i); continue;}
    std::vector<T> x = draw(n);
    bool a = r.coin(), b = r.coin();
    Erased<T, 1> &E = a ? (Erased<T, 1> &)in : (Erased<T, 1> &)in2, &O = b ? (Erased<T, 1> &)o : (Erased<T, 1> &)o2;
    E.guards(r); E.setup(x); O.guards(r); O.setup(draw(out));
    if (ST == vsip::state_no_save) os[i].hist.clear();
    long base = long(os[i].hist.size());
    os[i].hist.insert(os[i].hist.end(), x.begin(), x.end());
    std::vector<T> const &s = os[i].hist;
    std::vector<L> want; std::vector<long double> tol;
    for (long p = base; p < base + n; ++p)
      if (p % dec == 0)
      {
        L y; long double w = 0;
        for (long q = 0; q < M && q <= p; ++q) { L t = wide(full[q]) * wide(s[p - q]); y += t; w += std::abs(t);}
        want.push_back(y); tol.push_back(std::is_integral<S>::value ? 0 : (2 * M + 8) * eps_of<S>::get() * w);
      }
    F &f = *os[i].f; vsip::length_type got;
    if (a && b) got = f(in.v, o.v); else if (a) got = f(in.v, o2.v); else if (b) got = f(in2.v, o.v); else got = f(in2.v, o2.v);
    trace += str("f", i);
    if (long(got) != long(want.size())) { C->fail(key + ":length", str("reported ", got, " outputs, expected ", want.size(), " after ", trace)); return;}
    std::vector<T> y = O.read();
    if (!check(key, y, want, tol, long(want.size()))) { C->count("failed after " + trace); return;}
    std::string m = O.verify(y); if (!m.empty()) { C->fail(key + ":outside", m); return;}
    m = E.verify(E.values()); if (!m.empty()) { C->fail(key + ":input-changed", m); return;}
    C->ok(C->label + trace, 1 + long(got) / 4);
    if (os[i].hist.size() > 2000) { os[i].f->reset(); os[i].hist.clear();}
  }
}
struct Num { L v; long double e; Num(L x = L(), long double y = 0) : v(x), e(y) {} };
static Num mul(L a, Num b) { return Num(a * b.v, std::abs(a) * b.e + 4 * eps_of<S>::get() * std::abs(a * b.v));}
static Num add(Num a, Num b) { L s = a.v + b.v; return Num(s, a.e + b.e + 2 * eps_of<S>::get() * (std::abs(a.v) + std::abs(b.v)));}
template <vsip::obj_state ST, int KI, int KO> __attribute__((noinline)) void iir()
{
  typedef vsip::Iir<T, ST> F;
  Rng &r = C->rng;
  long m = r.range(1, 5), n = r.coin(1, 6) ? 1 : r.range(1, 40);
  auto mb = erase(Zoo2<T>::make(kint<(KI + KO) % 12>(), r, m, 3)); auto ma = erase(Zoo2<T>::make(kint<(KI * 5 + KO) % 12>(), r, m, 2));
  std::vector<T> b = rreal<T>(r, 3 * m, 1), a = rreal<T>(r, 2 * m, 0.3);
  if (std::is_integral<S>::value) { b = rvals<T>(r, 3 * m, -2, 2); a = rvals<T>(r, 2 * m, 0, 0);}
  mb.guards(r); mb.setup(b); ma.guards(r); ma.setup(a);
  auto in = erase(Zoo1<T>::make(kint<KI>(), r, n)); auto o = erase(Zoo1<T>::make(kint<KO>(), r, n));
  C->begin(str("iir ", tname<T>::get(), ST == vsip::state_save ? " save" : " nosave", " sections ", m, " in ", n, " ", mb.what, " ", ma.what, " ", in.what, " -> ", o.what));
  std::string key = str("iir", ST == vsip::state_save ? ":save" : ":nosave");
  std::vector<Obj<F>> os; os.push_back(Obj<F>()); os[0].f.reset(new F(mb.v, ma.v, n));
  if (long(os[0].f->kernel_size()) != 2 * m || long(os[0].f->filter_order()) != 2 * m || long(os[0].f->input_size()) != n || long(os[0].f->output_size()) != n || F::continuous_filtering != ST)
    C->fail(key + ":sizes", str(os[0].f->kernel_size()));
  mb.setup(rreal<T>(r, 3 * m, 1)); ma.setup(rreal<T>(r, 2 * m, 1));
  std::string trace;
  for (int step = 0; step < 12; ++step)
  {
    size_t i = r.range(0, long(os.size()) - 1); int op = int(r.range(0, 9));
    if (op == 0 && os.size() < 4) { size_t c = os.size(); os.push_back(Obj<F>()); os[c].f.reset(new F(*os[i].f)); os[c].hist = os[i].hist; trace += str("c", i); continue;}
    if (op == 1 && os.size() > 1) { size_t j = r.range(0, long(os.size()) - 1); *os[j].f = *os[i].f; os[j].hist = os[i].hist; trace += str("=", j, i); continue;}
    if (op == 2) { os[i].f->reset(); os[i].hist.clear(); trace += str("r", i); continue;}
    if (op == 3 && os.size() > 1) { os.erase(os.begin() + i); trace += str("d", i); continue;}
    std::vector<T> x = draw(n); in.guards(r); in.setup(x); o.guards(r); o.setup(draw(n));
    bool inplace = op == 4;
    if (ST == vsip::state_no_save) os[i].hist.clear();
    long base = long(os[i].hist.size()); os[i].hist.insert(os[i].hist.end(), x.begin(), x.end());
    std::vector<L> want; std::vector<long double> tol; std::vector<Num> w(2 * m);
    for (long p = 0; p < long(os[i].hist.size()); ++p)
    {
      Num v(wide(os[i].hist[p]));
      for (long s = 0; s < m; ++s)
      {
        Num w0 = add(v, add(mul(-wide(a[2 * s]), w[2 * s]), mul(-wide(a[2 * s + 1]), w[2 * s + 1])));
        v = add(mul(wide(b[3 * s]), w0), add(mul(wide(b[3 * s + 1]), w[2 * s]), mul(wide(b[3 * s + 2]), w[2 * s + 1])));
        w[2 * s + 1] = w[2 * s]; w[2 * s] = w0;
      }
      if (p >= base) { want.push_back(v.v); tol.push_back(v.e);}
    }
    trace += str(inplace ? "i" : "f", i);
    if (inplace) (*os[i].f)(in.v, in.v); else (*os[i].f)(in.v, o.v);
    Erased<T, 1> &O = inplace ? (Erased<T, 1> &)in : (Erased<T, 1> &)o;
    std::vector<T> y = O.read();
    if (!check(key, y, want, tol, n)) { C->count("failed after " + trace); return;}
    std::string q = O.verify(y); if (!q.empty()) { C->fail(key + ":outside", q); return;}
    if (!inplace) { q = in.verify(in.values()); if (!q.empty()) { C->fail(key + ":input-changed", q); return;}}
    C->ok(C->label + trace, 1 + n / 4);
    if (os[i].hist.size() > 600) { os[i].f->reset(); os[i].hist.clear();}
  }
}
template <int LO, int HI> struct each { static void go(long n)
{
  for (long q = 0; q < n; ++q)
  {
    fir<LO % 3 == 0 ? vsip::nonsym : LO % 3 == 1 ? vsip::sym_even_len_odd : vsip::sym_even_len_even, vsip::state_save, (LO * 3) % 8, LO % 8, (LO * 3 + P_O) % 8>();
    if (LO % 2) fir<(LO + 1) % 3 == 0 ? vsip::nonsym : (LO + 1) % 3 == 1 ? vsip::sym_even_len_odd : vsip::sym_even_len_even, vsip::state_no_save, (LO * 5 + 1) % 8, (LO + 2) % 8, (LO * 5 + P_O) % 8>();
    iir<LO % 3 == 2 ? vsip::state_no_save : vsip::state_save, LO % 8, (LO * 5 + P_O) % 8>();
  }
  each<LO + 1, HI>::go(n);
} };
template <int HI> struct each<HI, HI> { static void go(long) {} };
void vt_main(Ctx &c) { C = &c; each<P_LO, P_HI>::go(c.n(P_REPS));}
