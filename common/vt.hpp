// Shared monitor runtime for the checks in /verif/checks.
//
// A driver defines  void vt_main(vt::Ctx &)  and reports through this header:
//   ctx.begin("label")     one monitored case; the label is mapped to a file so
//                          that a sanitizer abort can be attributed to it
//   ctx.fail(key, detail)  the oracle refutes the property (run continues)
//   ctx.ok(signature)      the oracle agreed; 'signature' counts distinct
//                          non-trivial situations
// At the end main() prints one "VTSTATS {json}" line.  A driver that observed
// nothing, or that does not reach the end, is never counted as a pass.
#ifndef VT_HPP
#define VT_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <complex>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <limits>
#include <type_traits>
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>

namespace vt
{
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next();}
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // inclusive
  long range(long lo, long hi) { return lo + long(next() % uint64_t(hi - lo + 1));}
  bool coin(int num = 1, int den = 2) { return long(next() % uint64_t(den)) < num;}
  double unit() { return double(next() >> 11) / 9007199254740992.0;}
  double sym() { return 2 * unit() - 1;}
  template <typename C> typename C::value_type const &pick(C const &c) { return c[next() % c.size()];}
};

inline std::string str() { return std::string();}
template <typename A, typename... R>
std::string str(A const &a, R const &...r)
{
  std::ostringstream os; os.precision(17); os << a;
  return os.str() + str(r...);
}
inline uint64_t hash(std::string const &s)
{
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull;}
  return h;
}
inline std::string json_escape(std::string const &s)
{
  std::string o;
  for (char c : s)
    if (c == '"' || c == '\\') { o += '\\'; o += c;}
    else if ((unsigned char)c < 32) o += ' ';
    else o += c;
  return o;
}

// With VT_STEADY (P28) the program is run several times over and only what it leaves
// allocated counts: the bookkeeping of the monitors is not recorded.
#ifdef VT_STEADY
#define VT_UNRECORDED ::alloc::Off vt_unrecorded
#else
#define VT_UNRECORDED
#endif
struct Ctx
{
  Rng rng;
  uint64_t seed = 1;
  double scale = 1;          // multiplies case counts (thorough tier)
  int rank = 0, nproc = 1;
  std::string part;
  long cases = 0, evals = 0, fails = 0;
  std::unordered_set<uint64_t> sigs;
  std::vector<std::string> samples;
  std::map<std::string, long> counters;
  std::map<std::string, int> failkeys;
  std::string label;
  char *slot = nullptr;
  std::string slotpath;

  void open_slot(char const *path)
  {
    slotpath = path;
    int fd = ::open(path, O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) return;
    if (ftruncate(fd, 4096) == 0)
    {
      void *p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) slot = static_cast<char*>(p);
    }
    close(fd);
  }
  long n(long base) const { return std::max(1L, long(base * scale + .5));}
  void begin(std::string const &l)
  {
    VT_UNRECORDED;
    ++cases;
    label = l;
#ifdef VT_STEADY
    ::alloc::label = strdup(l.c_str());
#endif
    if (slot)
    {
      size_t k = std::min<size_t>(l.size(), 4000);
      memcpy(slot, l.c_str(), k); slot[k] = 0;
    }
  }
  void ok(std::string const &sig, long ev = 1)
  {
    VT_UNRECORDED;
    evals += ev;
    if (sigs.insert(hash(sig)).second && (samples.size() < 6 || (samples.size() < 12 && sigs.size() % 97 == 0)))
      samples.push_back(label + " :: " + sig);
  }
  void count(std::string const &k, long v = 1) { VT_UNRECORDED; counters[k] += v;}
  // key: stable identification of what failed (used for known findings)
  void fail(std::string const &key, std::string const &detail)
  {
    VT_UNRECORDED;
#ifdef VT_STEADY
    if (key.compare(0, 5, "left:")) { ++counters["disagreements of the underlying monitor"]; return;}
#endif
    ++fails;
    if (++failkeys[key] <= 3)
    {
      printf("VTFAIL {\"key\":\"%s\",\"case\":\"%s\",\"detail\":\"%s\",\"rank\":%d}\n",
             json_escape(key).c_str(), json_escape(label).c_str(),
             json_escape(detail.substr(0, 600)).c_str(), rank);
      fflush(stdout);
    }
  }
  template <typename F>
  void check(bool c, std::string const &key, F detail)
  { ++evals; if (!c) fail(key, detail());}
  void finish()
  {
    if (!slotpath.empty())
    {
      if (FILE *f = fopen((slotpath + ".sigs").c_str(), "wb"))
      {
        for (uint64_t h : sigs) fwrite(&h, 8, 1, f);
        fclose(f);
      }
    }
    std::ostringstream os;
    os << "VTSTATS {\"part\":\"" << part << "\",\"rank\":" << rank << ",\"cases\":" << cases
       << ",\"evals\":" << evals << ",\"distinct\":" << sigs.size() << ",\"fails\":" << fails
       << ",\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i)
      os << (i ? "," : "") << "\"" << json_escape(samples[i].substr(0, 300)) << "\"";
    os << "],\"counters\":{";
    bool f = true;
    for (auto &c : counters) { os << (f ? "" : ",") << "\"" << json_escape(c.first) << "\":" << c.second; f = false;}
    os << "}}";
    // one write so that lines of several ranks do not interleave
    std::string s = os.str() + "\n";
    fflush(stdout);
    size_t off = 0;
    while (off < s.size()) { ssize_t w = ::write(1, s.data() + off, s.size() - off); if (w <= 0) break; off += w;}
  }
};

inline void parse(Ctx &c, int argc, char **argv)
{
  for (int i = 1; i < argc; ++i)
  {
    if (!strcmp(argv[i], "--seed") && i + 1 < argc) c.seed = strtoull(argv[++i], 0, 10);
    else if (!strcmp(argv[i], "--scale") && i + 1 < argc) c.scale = atof(argv[++i]);
    else if (!strcmp(argv[i], "--part") && i + 1 < argc) c.part = argv[++i];
    else if (!strcmp(argv[i], "--slot") && i + 1 < argc) c.open_slot(argv[++i]);
  }
  c.rng = Rng(c.seed * 7919 + hash(c.part) % 100003);
}

// ---- value helpers -------------------------------------------------------
template <typename T> struct is_cplx : std::false_type {};
template <typename T> struct is_cplx<std::complex<T>> : std::true_type {};
template <typename T> struct scalar { typedef T type;};
template <typename T> struct scalar<std::complex<T>> { typedef T type;};

template <typename T> struct tname { static char const *get() { return "?";}};
#define VT_TN(T, N) template <> struct tname<T> { static char const *get() { return N;}};
VT_TN(float, "f") VT_TN(double, "d") VT_TN(int, "i") VT_TN(bool, "b") VT_TN(short, "s") VT_TN(char, "c")
VT_TN(long, "l") VT_TN(unsigned int, "u") VT_TN(unsigned char, "uc")
VT_TN(std::complex<float>, "cf") VT_TN(std::complex<double>, "cd") VT_TN(std::complex<int>, "ci")
#undef VT_TN

// an integral value in [lo,hi], exactly representable in every type used
template <typename T> struct gen
{
  static T small(Rng &r, long lo = -9, long hi = 9) { return T(r.range(lo, hi));}
  static T real(Rng &r, double m = 1) { return T(r.sym() * m);}
};
template <> struct gen<bool>
{
  static bool small(Rng &r, long = 0, long = 0) { return r.coin();}
  static bool real(Rng &r, double = 1) { return r.coin();}
};
template <typename T> struct gen<std::complex<T>>
{
  static std::complex<T> small(Rng &r, long lo = -9, long hi = 9)
  { T a = T(r.range(lo, hi)); T b = T(r.range(lo, hi)); return std::complex<T>(a, b);}
  static std::complex<T> real(Rng &r, double m = 1)
  { T a = T(r.sym() * m); T b = T(r.sym() * m); return std::complex<T>(a, b);}
};
// a value that identifies element number n (unique for n < 8388608 in float; mod for narrow types)
template <typename T> struct uid { static T of(long n) { return T(n + 1);} };
template <> struct uid<bool> { static bool of(long n) { return ((n * 2654435761u) >> 7) & 1;} };
template <> struct uid<char> { static char of(long n) { return char(n % 120 + 1);} };
template <> struct uid<unsigned char> { static unsigned char of(long n) { return (unsigned char)(n % 250 + 1);} };
template <typename T> struct uid<std::complex<T>>
{ static std::complex<T> of(long n) { return std::complex<T>(T(n + 1), T(-(2 * n + 1)));} };

template <typename T> inline double absdiff(T a, T b) { return std::abs(double(a) - double(b));}
template <typename T> inline double absdiff(std::complex<T> a, std::complex<T> b)
{ return std::abs(std::complex<double>(a.real(), a.imag()) - std::complex<double>(b.real(), b.imag()));}
inline double absdiff(bool a, bool b) { return a == b ? 0 : 1;}
template <typename T> inline double magd(T a) { return std::abs(double(a));}
template <typename T> inline double magd(std::complex<T> a) { return std::hypot(double(a.real()), double(a.imag()));}

template <typename T> struct eps_of { static double get() { return std::numeric_limits<T>::epsilon();} };
template <typename T> struct eps_of<std::complex<T>> { static double get() { return std::numeric_limits<T>::epsilon();} };
} // namespace vt

void vt_main(vt::Ctx &);
#endif
