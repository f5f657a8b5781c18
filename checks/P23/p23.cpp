// Threads: each with its own library object and private data must get what it
// would get alone; shared read-only views and shared blocks stay exact.
#include "vt.hpp"
#include <vsip/initfin.hpp>
#include <vsip/support.hpp>
#include <vsip/map.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/math.hpp>
#include <vsip/signal.hpp>
#include <vsip/solvers.hpp>
#include <vsip/random.hpp>
#include <vsip/selgen.hpp>
#include <vsip/dda.hpp>
#include <ovxx/allocator.hpp>
#include <ovxx/aligned_allocator.hpp>
#include <ovxx/strided.hpp>
#include <thread>
#include <mutex>
#include <atomic>
#include <functional>
#ifndef P_REPS
#define P_REPS 2
#endif
using namespace vsip;
using vt::Ctx; using vt::Rng; using vt::str;
typedef std::complex<float> cf; typedef std::complex<double> cd;
typedef std::vector<double> Out;
static void add(Out &o, double x) { o.push_back(x);}
static void add(Out &o, float x) { o.push_back(x);}
static void add(Out &o, cf x) { o.push_back(x.real()); o.push_back(x.imag());}
static void add(Out &o, cd x) { o.push_back(x.real()); o.push_back(x.imag());}
template <typename T, typename B> void dump(Out &o, const_Vector<T, B> v) { for (index_type i = 0; i < v.size(); ++i) add(o, v.get(i));}
template <typename T, typename B> void dump(Out &o, const_Matrix<T, B> v) { for (index_type i = 0; i < v.size(0); ++i) for (index_type j = 0; j < v.size(1); ++j) add(o, v.get(i, j));}
static void val(Rng &r, float &x) { x = r.sym();}
static void val(Rng &r, double &x) { x = r.sym();}
static void val(Rng &r, int &x) { x = r.range(-99, 99);}
static void val(Rng &r, cf &x) { float a = r.sym(); x = cf(a, r.sym());}
static void val(Rng &r, cd &x) { double a = r.sym(); x = cd(a, r.sym());}
template <typename T> Vector<T> rv(Rng &r, length_type n) { Vector<T> v(n); for (index_type i = 0; i < n; ++i) { T x; val(r, x); v.put(i, x);} return v;}
template <typename T> Matrix<T> rm(Rng &r, length_type m, length_type n) { Matrix<T> v(m, n); for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) { T x; val(r, x); v.put(i, j, x);} return v;}
static void pause_(Rng &r) { if (r.coin(1, 12)) usleep(r.range(0, 200)); else if (r.coin(1, 3)) std::this_thread::yield();}

template <typename T> void t_elem(Rng &r, Out &o)
{
  length_type n = r.range(1, 60); Vector<T> a = rv<T>(r, n), b = rv<T>(r, n), c(n); c = a * b + T(3) - a; c += b; c = c * T(2);
  c(Domain<1>(0, 1, n / 2)) = a(Domain<1>(n - n / 2, 1, n / 2)); dump(o, c); add(o, T(sumval(c)));
}
static void t_trans(Rng &r, Out &o) { length_type m = r.range(1, 12), n = r.range(1, 12); Matrix<float> a = rm<float>(r, m, n), b(n, m); b = a.transpose(); b.row(0) *= 2.f; Matrix<float, Dense<2, float, col2_type> > c(n, m); c = b + b; dump(o, c);}
static void t_split(Rng &r, Out &o) { typedef ovxx::Strided<2, cf, Layout<2, row2_type, dense, split_complex> > B; length_type m = r.range(1, 9), n = r.range(1, 9); Matrix<cf, B> a(m, n); a = rm<cf>(r, m, n); Matrix<cf> b(m, n); b = conj(a) * cf(2, 1); a = b; a.real() += 1.f; dump(o, a);}
static void t_red(Rng &r, Out &o) { Matrix<double> a = rm<double>(r, r.range(1, 9), r.range(1, 9)); Index<2> i; add(o, maxval(a, i)); add(o, double(i[0] * 100 + i[1])); add(o, sumsqval(a)); add(o, meanval(a)); add(o, minval(mag(a), i));}
template <typename T> void t_fft(Rng &r, Out &o)
{
  typedef std::complex<T> X; length_type n = r.range(1, 48);
  Fft<const_Vector, X, X, fft_fwd, by_reference> f(Domain<1>(n), 1); Fft<const_Vector, X, X, fft_inv, by_value> g(Domain<1>(n), 1.f / n);
  Vector<X> a = rv<X>(r, n), b(n); for (int k = 0; k < 3; ++k) { f(a, b); a = g(b);} dump(o, a); dump(o, b);
}
static void t_rfft(Rng &r, Out &o) { length_type n = 2 * r.range(1, 20); Fft<const_Vector, float, cf, 0, by_reference> f(Domain<1>(n), 1); Vector<float> a = rv<float>(r, n); Vector<cf> b(n / 2 + 1); f(a, b); dump(o, b);}
static void t_fft2(Rng &r, Out &o) { length_type m = r.range(1, 8), n = r.range(1, 8); Fft<const_Matrix, cf, cf, fft_fwd, by_reference> f(Domain<2>(m, n), 1); Matrix<cf> a = rm<cf>(r, m, n), b(m, n); f(a, b); f(b); dump(o, b);}
static void t_fftm(Rng &r, Out &o) { length_type m = r.range(1, 8), n = r.range(1, 16); Fftm<cd, cd, col, fft_inv, by_reference> f(Domain<2>(m, n), 0.5); Matrix<cd> a = rm<cd>(r, m, n), b(m, n); f(a, b); dump(o, b);}
static void t_fir(Rng &r, Out &o) { length_type k = r.range(2, 8), n = r.range(16, 40); Vector<float> h = rv<float>(r, k); Fir<float> f(h, n, 1); Vector<float> y(n); for (int i = 0; i < 4; ++i) { f(rv<float>(r, n), y); dump(o, y);} Fir<float> g(f); g(rv<float>(r, n), y); dump(o, y);}
static void t_iir(Rng &r, Out &o) { length_type n = r.range(2, 40); Matrix<float> b = rm<float>(r, 2, 3), a = rm<float>(r, 2, 2); a *= 0.3f; Iir<float> f(b, a, n); Vector<float> y(n); for (int i = 0; i < 3; ++i) { f(rv<float>(r, n), y); dump(o, y);}}
static void t_conv(Rng &r, Out &o) { length_type k = r.range(1, 7), n = r.range(7, 40); Convolution<const_Vector, nonsym, support_full, float> c(rv<float>(r, k), Domain<1>(n), 1); Vector<float> y(n + k - 1); c(rv<float>(r, n), y); dump(o, y);
  Correlation<const_Vector, support_same, double> q{Domain<1>(k), Domain<1>(n)}; Vector<double> z(n); q(unbiased, rv<double>(r, k), rv<double>(r, n), z); dump(o, z);}
static void t_prod(Rng &r, Out &o) { length_type m = r.range(1, 9), n = r.range(1, 9), p = r.range(1, 9); Matrix<cf> c(m, p); c = prod(rm<cf>(r, m, n), rm<cf>(r, n, p)); gemp<mat_ntrans, mat_trans>(cf(2), rm<cf>(r, m, n), rm<cf>(r, p, n), cf(1), c); dump(o, c); Vector<double> v = rv<double>(r, n); add(o, dot(v, rv<double>(r, n))); dump(o, Vector<double>(prod(rm<double>(r, m, n), v)));}
template <typename T> Matrix<T> dominant(Rng &r, length_type n) { Matrix<T> a = rm<T>(r, n, n); for (index_type i = 0; i < n; ++i) a.put(i, i, a.get(i, i) + T(2 * n)); return a;}
static void t_lu(Rng &r, Out &o) { length_type n = r.range(1, 9); lud<double, by_reference> s(n); s.decompose(dominant<double>(r, n)); Matrix<double> x(n, 2); s.solve<mat_ntrans>(rm<double>(r, n, 2), x); dump(o, x);}
static void t_qr(Rng &r, Out &o) { length_type n = r.range(1, 6), m = n + r.range(0, 4); qrd<double, by_reference> s(m, n, qrd_saveq1); Matrix<double> a(m, n); a = rm<double>(r, m, n); a(Domain<2>(n, n)) += dominant<double>(r, n); s.decompose(a); Matrix<double> x(n, 2); s.lsqsol(rm<double>(r, m, 2), x); dump(o, x);}
static void t_svd(Rng &r, Out &o) { length_type n = r.range(1, 5), m = r.range(1, 7); svd<double, by_reference> s(m, n, svd_uvnos, svd_uvnos); Vector<float> d(std::min(m, n)); Vector<double> e(std::min(m, n)); Matrix<double> a = rm<double>(r, m, n); s.decompose(a, e); dump(o, e);}
static void t_chol(Rng &r, Out &o) { length_type n = r.range(1, 7); Matrix<double> a = rm<double>(r, n, n), b(n, n); b = prod(a, a.transpose()); for (index_type i = 0; i < n; ++i) b(i, i) = b.get(i, i) + 1; chold<double, by_reference> s(lower, n); s.decompose(b); Matrix<double> x(n, 1); s.solve(rm<double>(r, n, 1), x); dump(o, x);}
static void t_rand(Rng &r, Out &o) { Rand<double> g(r.range(0, 9999), r.coin()); dump(o, Vector<double>(g.randu(20))); add(o, g.randn());}
static void t_hist(Rng &r, Out &o) { Histogram<const_Vector, float> h(-1, 1, r.range(3, 9)); Vector<int> c(h(rv<float>(r, 50))); c = h(rv<float>(r, 50), true); for (index_type i = 0; i < c.size(); ++i) add(o, double(c.get(i)));}
static void t_win(Rng &r, Out &o) { length_type n = r.range(4, 40); dump(o, Vector<float>(hanning(n))); dump(o, Vector<float>(kaiser(n, 2.f))); dump(o, Vector<float>(cheby(n, 40.f))); dump(o, Vector<float>(freqswap(rv<float>(r, n))));}
static void t_gen(Rng &r, Out &o) { length_type n = r.range(1, 30); Vector<float> a = ramp<float>(1, 2, n); a = clip(a, 3.f, 20.f, 0.f, 1.f); dump(o, a); Vector<Index<1> > ix(n); length_type k = indexbool(rv<float>(r, n) > rv<float>(r, n), ix); for (index_type i = 0; i < k; ++i) add(o, double(ix.get(i)[0]));}
static void t_tensor(Rng &r, Out &o) { length_type a = r.range(1, 5), b = r.range(1, 5), c = r.range(1, 5); Tensor<double> t(a, b, c, 1.5), u(a, b, c); t(0, whole_domain, whole_domain) = rm<double>(r, b, c); u = t + t; dump(o, u(0, whole_domain, whole_domain)); add(o, sumval(u));}
static void t_dda(Rng &r, Out &o) { Vector<float> v = rv<float>(r, r.range(2, 40)); { dda::Data<Vector<float>::block_type, dda::inout> d(v.block()); for (index_type i = 0; i < d.size(); ++i) d.ptr()[i * d.stride(0)] += 1;}
  auto s = v(Domain<1>(0, 2, v.size() / 2)); { dda::Data<decltype(s)::block_type, dda::inout, Layout<1, row1_type, dense, array> > d(s.block()); for (index_type i = 0; i < d.size(); ++i) d.ptr()[i] *= 2;} dump(o, v);}
struct Task { char const *name; void (*f)(Rng &, Out &); double tol;};
static Task const tasks[] = {{"elem-float", t_elem<float>, 0}, {"elem-cplx", t_elem<cf>, 0}, {"transpose", t_trans, 0}, {"split", t_split, 0}, {"reduce", t_red, 0}, {"fft-f", t_fft<float>, 1e-4}, {"fft-d", t_fft<double>, 1e-9},
  {"rfft", t_rfft, 1e-4}, {"fft2", t_fft2, 1e-3}, {"fftm", t_fftm, 1e-9}, {"fir", t_fir, 0}, {"iir", t_iir, 0}, {"conv", t_conv, 1e-4}, {"prod", t_prod, 1e-4}, {"lu", t_lu, 1e-8}, {"qr", t_qr, 1e-8}, {"svd", t_svd, 1e-8}, {"chol", t_chol, 1e-6},
  {"rand", t_rand, 0}, {"hist", t_hist, 0}, {"window", t_win, 1e-5}, {"gen", t_gen, 0}, {"tensor", t_tensor, 0}, {"dda", t_dda, 0}};
static int const NT = sizeof tasks / sizeof *tasks;

// start together
struct Gate { std::atomic<int> n; explicit Gate(int k) : n(k) {} void pass() { --n; while (n > 0) std::this_thread::yield();}};
static std::mutex mx;
static void crew(int k, std::function<void(int)> f)
{
  Gate g(k); std::vector<std::thread> t;
  for (int i = 0; i < k; ++i) t.push_back(std::thread([&, i] { g.pass(); f(i);}));
  for (auto &x : t) x.join();
}
static std::string differ(Task const &t, Out const &a, Out const &b)
{
  if (a.size() != b.size()) return str(a.size(), " values instead of ", b.size());
  for (size_t i = 0; i < a.size(); ++i)
    if (!(std::abs(a[i] - b[i]) <= t.tol * (1 + std::abs(b[i])))) return str("value ", i, " is ", a[i], " instead of ", b[i]);
  return "";
}

static void private_(Ctx &c, int threads, int per, int fixed)
{
  struct One { int kind; uint64_t seed; Out want; std::string bad;};
  std::vector<std::vector<One> > w(threads);
  std::string lab = str("private work on ", threads, " threads");
  for (auto &v : w) for (int k = 0; k < per; ++k) { One o; o.kind = fixed >= 0 ? fixed : c.rng.range(0, NT - 1); o.seed = c.rng.next(); Rng r(o.seed); tasks[o.kind].f(r, o.want); v.push_back(o);}
  if (fixed >= 0) lab += str(" all ", tasks[fixed].name);
  c.begin(lab);
  std::vector<int> style(threads); for (int &s : style) s = c.rng.range(0, 2);
  crew(threads, [&](int i)
  {
    Rng mine(w[i][0].seed ^ 99); std::unique_ptr<vsipl> lib;
    if (style[i] != 2) lib.reset(new vsipl);
    for (One &o : w[i])
    {
      pause_(mine);
      std::unique_ptr<vsipl> own;               // some threads start and end the library around each piece of work
      if (style[i] == 2) own.reset(new vsipl);
      Rng r(o.seed); Out got;
      try { tasks[o.kind].f(r, got); o.bad = differ(tasks[o.kind], got, o.want);}
      catch (std::exception const &e) { o.bad = str("exception ", e.what());}
    }
  });
  for (int i = 0; i < threads; ++i)
    for (One &o : w[i])
    {
      c.count(str("task ", tasks[o.kind].name));
      if (o.bad.empty()) c.ok(str(tasks[o.kind].name, threads, style[i], o.seed)); else c.fail(str("private:", tasks[o.kind].name), str(lab, ": ", tasks[o.kind].name, " in thread ", i, ": ", o.bad));
    }
}

// views of the main thread's data, read by all
static void readers(Ctx &c, int threads)
{
  Rng r(c.rng.next()); length_type n = r.range(2, 30), m = r.range(2, 12), p = r.range(2, 12);
  Vector<float> v = rv<float>(r, n); Matrix<double, Dense<2, double, col2_type> > a(m, p); a = rm<double>(r, m, p); Tensor<int> t(m, 3, p);
  for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < 3; ++j) for (index_type k = 0; k < p; ++k) t.put(i, j, k, r.range(-99, 99));
  typedef ovxx::Strided<1, cf, Layout<1, row1_type, dense, split_complex> > SB; Vector<cf, SB> z(n); z = rv<cf>(r, n);
  std::vector<float> cv(n); std::vector<cf> cz(n); for (index_type i = 0; i < n; ++i) { cv[i] = v.get(i); cz[i] = z.get(i);}
  std::vector<double> ca(m * p); for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < p; ++j) ca[i * p + j] = a.get(i, j);
  std::vector<int> ct(m * 3 * p); for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < 3; ++j) for (index_type k = 0; k < p; ++k) ct[(i * 3 + j) * p + k] = t.get(i, j, k);
  std::string lab = str("readers ", threads, " ", n, " ", m, "x", p); c.begin(lab);
  std::vector<std::string> bad(threads); std::vector<uint64_t> seed(threads); for (auto &s : seed) s = c.rng.next();
  // writable views of shared data are only read here
  crew(threads, [&](int id)
  {
    Rng q(seed[id]); vsipl lib; std::string &b = bad[id];
    for (int k = 0; k < 30 && b.empty(); ++k)
    {
      pause_(q);
      index_type i = q.range(0, n - 1), x = q.range(0, m - 1), y = q.range(0, p - 1);
      switch (q.range(0, 8))
      {
        case 0: { Vector<float> w(v); if (w.get(i) != cv[i]) b = "vector"; break;}
        case 1: { const_Vector<float> w(v); if (w(i) != cv[i]) b = "const vector"; break;}
        case 2: { auto w = a.row(x); if (w.get(y) != ca[x * p + y]) b = "row"; auto u = a.transpose(); if (u.get(y, x) != ca[x * p + y]) b = "transpose"; break;}
        case 3: { auto w = v(Domain<1>(n - 1, -1, n)); if (w.get(i) != cv[n - 1 - i]) b = "reversed"; break;}
        case 4: { Vector<float> w(n); w = v + v; w(i) = 2 * w.get(i); if (w.get(i) != 4 * cv[i]) b = "sum"; break;}
        case 5: { if (z.get(i) != cz[i] || z.real().get(i) != cz[i].real() || z.imag().get(i) != cz[i].imag()) b = "split complex"; break;}
        case 6: { auto w = t(x, whole_domain, y); if (w.get(1) != ct[(x * 3 + 1) * p + y]) b = "fibre"; auto u = t(whole_domain, 2, whole_domain); if (u.get(x, y) != ct[(x * 3 + 2) * p + y]) b = "plane"; break;}
        case 7: { Matrix<double> w(m, p); w = a; double s = 0; for (double e : ca) s += std::abs(e); if (!(std::abs(sumval(mag(w)) - s) <= 1e-9 * (1 + s)) || !(std::abs(sumval(mag(a)) - s) <= 1e-9 * (1 + s))) b = "copy or reduction"; break;}
        default: { dda::Data<Vector<float>::block_type, dda::in> d(v.block()); if (d.ptr()[i * d.stride(0)] != cv[i]) b = "direct access"; dda::Data<Vector<cf, SB>::block_type, dda::in, Layout<1, row1_type, dense, interleaved_complex> > e(z.block()); if (e.ptr()[2 * i] != cz[i].real()) b = "converted access";}
      }
    }
  });
  for (auto &b : bad) { c.count("reader threads"); if (b.empty()) c.ok(lab + str(&b - &bad[0])); else c.fail("shared-read", str(lab, ": ", b));}
}

// an allocator that counts, to see that shared storage is released exactly once
struct Counting : ovxx::allocator
{
  ovxx::aligned_allocator real; std::atomic<long> live, total; std::mutex m; std::set<void *> held; bool wrong;
  Counting() : live(0), total(0), wrong(false) {}
  virtual void *allocate(size_t s) { void *p = static_cast<ovxx::allocator &>(real).template allocate<char>(s); std::lock_guard<std::mutex> g(m); held.insert(p); ++live; ++total; return p;}
  virtual void deallocate(void *p, size_t s) { { std::lock_guard<std::mutex> g(m); if (!held.erase(p)) { wrong = true; return;} --live;} static_cast<ovxx::allocator &>(real).template deallocate<char>(static_cast<char *>(p), s);}
};
struct Probe : ovxx::refcounted<Probe> { std::atomic<int> &dead; int body; Probe(std::atomic<int> &d) : dead(d), body(7) {} ~Probe() { body = 0; ++dead;}};
static void counts(Ctx &c, int threads)
{
  std::string lab = str("shared lifetimes on ", threads, " threads"); c.begin(lab);
  std::vector<uint64_t> seed(threads); for (auto &s : seed) s = c.rng.next();
  {
    std::atomic<int> dead(0), early(0); ovxx::refcounted_ptr<Probe> root(new Probe(dead), false);
    std::vector<std::unique_ptr<ovxx::refcounted_ptr<Probe> > > hand; for (int i = 0; i < threads; ++i) hand.push_back(std::unique_ptr<ovxx::refcounted_ptr<Probe> >(new ovxx::refcounted_ptr<Probe>(root)));
    root.reset(0);
    crew(threads, [&](int i)
    {
      Rng q(seed[i]); std::vector<ovxx::refcounted_ptr<Probe> > pool(1, *hand[i]); hand[i].reset();
      for (int k = 0; k < 300; ++k)
      {
        if (q.coin() && pool.size() < 6) pool.push_back(pool[q.range(0, pool.size() - 1)]);
        else if (pool.size() > 1) pool.erase(pool.begin() + q.range(0, pool.size() - 1));
        else { ovxx::refcounted_ptr<Probe> p; p = pool[0]; pool[0] = p;}
        if (dead || pool[0]->body != 7) ++early;
        if (q.coin(1, 50)) std::this_thread::yield();
      }
    });
    if (early) c.fail("shared-lifetime", lab + ": destroyed while still referenced"); else if (dead != 1) c.fail("shared-lifetime", str(lab, ": destroyed ", int(dead), " times")); else c.ok(lab + str(seed[0]));
    c.count("reference operations", 300 * threads);
  }
  Counting count; ovxx::allocator *old = ovxx::allocator::get_default(); ovxx::allocator::set_default(&count);
  std::string why;
  {
    std::vector<std::unique_ptr<Vector<float> > > hv; std::vector<std::unique_ptr<Matrix<cf> > > hm;
    { Vector<float> v(32, 3.f); Matrix<cf> m(5, 6, cf(1, 2)); for (int i = 0; i < threads; ++i) { hv.push_back(std::unique_ptr<Vector<float> >(new Vector<float>(v))); hm.push_back(std::unique_ptr<Matrix<cf> >(new Matrix<cf>(m)));}}
    if (count.live != (Matrix<cf>::block_type::storage_format == split_complex ? 3 : 2)) why = "storage released while referenced";
    std::vector<std::string> bad(threads);
    crew(threads, [&](int i)
    {
      Rng q(seed[i] ^ 5); vsipl lib; Vector<float> v(*hv[i]); hv[i].reset(); Matrix<cf> m(*hm[i]); hm[i].reset();
      for (int k = 0; k < 60; ++k)
      {
        pause_(q);
        if (q.coin()) { Vector<float> w(v); auto s = w(Domain<1>(3, 2, 10)); auto t = s(Domain<1>(1, 1, 4)); if (t.get(2) != 3.f) bad[i] = "vector value"; auto e = v + w; if (e.get(3) != 6.f) bad[i] = "expression value";}
        else { auto r = m.row(2); auto cc = m.col(3); auto d = m.diag(0); auto x = m.real(); if (r.get(1) != cf(1, 2) || cc.get(0) != cf(1, 2) || d.get(1) != cf(1, 2) || x.get(1, 1) != 1.f) bad[i] = "matrix value";}
      }
    });
    for (auto &b : bad) if (!b.empty()) why = b;
  }
  ovxx::allocator::set_default(old);
  if (why.empty() && count.wrong) why = "storage released twice";
  if (why.empty() && count.live) why = str(long(count.live), " pieces of storage not released");
  c.count("shared blocks", 2);
  if (why.empty()) c.ok(lab + "blocks" + str(seed[0])); else c.fail("shared-block", str(lab, ": ", why));
}
// many objects whose last references are dropped at about the same time by several threads
struct Tally { std::atomic<int> dead; int body; };
struct Burst : ovxx::refcounted<Burst> { Tally &t; Burst(Tally &x) : t(x) { t.body = 7;} ~Burst() { t.body = 0; ++t.dead;}};
static void bursts(Ctx &c, int threads)
{
  std::string lab = str("references dropped together by ", threads, " threads"); c.begin(lab);
  int const n = 3000; typedef ovxx::refcounted_ptr<Burst> ptr; bool const copy = c.rng.coin();
  std::vector<Tally> tally(n); for (auto &t : tally) t.dead = 0;
  std::vector<std::vector<ptr> > hand(threads);
  for (int i = 0; i < n; ++i) { ptr p(new Burst(tally[i]), false); for (auto &h : hand) h.push_back(p);}
  std::atomic<int> ready(0); std::atomic<int> early(0);
  crew(threads, [&](int i)
  {
    ++ready; while (ready < threads) {}
    for (int k = 0; k < n; ++k)
    {
      if (copy) { ptr p(hand[i][k]); if (tally[k].body != 7 || tally[k].dead) ++early; hand[i][k].reset(0);}
      else hand[i][k].reset(0);
    }
  });
  int never = 0, twice = 0; for (auto &t : tally) { never += t.dead == 0; twice += t.dead > 1;}
  c.count("references dropped together", n * threads);
  if (early || twice) c.fail("shared-lifetime", str(lab, ": ", int(early), " destroyed while referenced, ", twice, " more than once"));
  else if (never) c.fail("shared-lifetime", str(lab, ": ", never, " of ", n, " objects never destroyed"));
  else c.ok(lab + str(c.rng.next()));
}
// the library is started and ended by threads while others use it
static void lives(Ctx &c, int threads)
{
  std::string lab = str("library lives on ", threads, " threads"); c.begin(lab);
  std::vector<uint64_t> seed(threads); for (auto &s : seed) s = c.rng.next(); std::vector<std::string> bad(threads);
  crew(threads, [&](int i)
  {
    Rng q(seed[i]);
    for (int k = 0; k < 15; ++k)
    {
      pause_(q); vsipl a; std::unique_ptr<vsipl> b; if (q.coin()) b.reset(new vsipl);
      Vector<float> v(20, 2.f); if (q.coin()) b.reset();
      v += 1.f; if (v.get(7) != 3.f || num_processors() != 1 || local_processor() != 0) bad[i] = "wrong value";
    }
  });
  for (auto &b : bad) { c.count("library lives", 15); if (b.empty()) c.ok(lab + str(seed[&b - &bad[0]])); else c.fail("library-life", str(lab, ": ", b));}
}
void vt_main(Ctx &c)
{
  for (int k = 0; k < c.n(P_REPS); ++k)
  {
    private_(c, c.rng.range(2, 8), 12, -1);
    for (int t = 0; t < NT; ++t) private_(c, 4, 3, t);
    readers(c, c.rng.range(2, 8)); counts(c, c.rng.range(2, 8)); bursts(c, 2); bursts(c, c.rng.range(2, 6)); lives(c, c.rng.range(2, 8));
  }
}
int main(int argc, char **argv)
{
  vsipl library(argc, argv); Ctx ctx; vt::parse(ctx, argc, argv);
  try { vt_main(ctx);} catch (std::exception const &e) { ctx.fail("uncaught-exception", e.what());}
  ctx.finish(); return 0;
}
