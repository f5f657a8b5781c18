// P27: lives of library objects in configurations without MPI or without threads:
// the library works while one exists, and a finished life leaves nothing allocated.
#include "alloc.hpp"
#include "vt.hpp"
#include <vsip/initfin.hpp>
#include <vsip/support.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/math.hpp>
#include <ovxx/allocator.hpp>
#include <memory>
using namespace vt;
static bool works(Rng &r)
{
  alloc::On on; // something that allocates, computes and releases
  long n = r.range(1, 40), m = r.range(1, 6); float a = r.range(-9, 9), want = 0, got = 0;
  vsip::Vector<float> v(n, a); vsip::Matrix<std::complex<double> > c(m, n, std::complex<double>(a, 1));
  v += 1.f; for (long i = 0; i < n; ++i) { v.put(i, v.get(i) + i); want += a + 1 + i;}
  got = vsip::sumval(v);
  vsip::Matrix<std::complex<double> > d(m, n); d = c * c;
  return got == want && d.get(m - 1, n - 1) == std::complex<double>(a * a - 1, 2 * a) && v(vsip::Domain<1>(0, 1, (n + 1) / 2)).get(0) == a + 1;
}
int main(int argc, char **argv)
{
  Ctx ctx; parse(ctx, argc, argv);
  Rng &r = ctx.rng; long base = -1;
  for (long q = 0; q < ctx.n(120); ++q)
  {
    ctx.begin(str("life #", q));
    std::string hist;
    {
      std::vector<std::unique_ptr<vsip::vsipl> > obj; hist.reserve(400); obj.reserve(8);
      long steps = r.range(1, 12);
      for (long s = 0; s < steps || !obj.empty(); ++s)
      {
        if (s < steps && (obj.empty() || (obj.size() < 7 && r.coin())))
        {
          if (r.coin()) { alloc::On on; obj.emplace_back(new vsip::vsipl); hist += 'n';}
          else { char a0[] = "prog", a1[] = "one", *av[] = { a0, a1, 0}, **p = av; int ac = 2; { alloc::On on; obj.emplace_back(new vsip::vsipl(ac, p));} hist += 'a';
                 if (ac != 2 || std::string(p[0]) != "prog" || std::string(p[1]) != "one") ctx.fail("arguments", hist);}
        }
        else { obj.erase(obj.begin() + r.range(0, obj.size() - 1)); hist += 'd';}
        if (!obj.empty())
        {
          if (!works(r)) { ctx.fail("values", hist); break;}
          if (vsip::num_processors() != 1 || vsip::local_processor() != 0) ctx.fail("processors", hist);
        }
        ctx.ok(hist);
      }
    }
    if (q < 3) base = alloc::count;
    else if (alloc::count > base)
    { ctx.fail("left-allocated", str("after life #", q, " (", hist, ") ", alloc::count, " allocations, ", base, " after life #2")); alloc::report(0); break;}
  }
  ctx.finish();
  return 0;
}
