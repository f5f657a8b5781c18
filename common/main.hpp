// main() for drivers that use the library (serial, or under mpirun).
#ifndef VT_MAIN_HPP
#define VT_MAIN_HPP
#include "vt.hpp"
#include <vsip/initfin.hpp>
#include <vsip/support.hpp>
#include <vsip/parallel.hpp>
int main(int argc, char **argv)
{
  vsip::vsipl library(argc, argv);
  vt::Ctx ctx;
  vt::parse(ctx, argc, argv);
  ctx.rank = vsip::local_processor();
  ctx.nproc = vsip::num_processors();
#ifdef VT_STEADY
  // the same program again and again: after the first time (caches, statics) nothing may be left behind
  vt::Rng const start = ctx.rng; long after[4], mark[4];
  for (int pass = 0; pass < 4; ++pass)
  {
    ctx.rng = start; mark[pass] = alloc::seq;
    try { alloc::On on; vt_main(ctx);}
    catch (std::exception const &e) { ctx.fail("left:uncaught-exception", std::string(e.what()));}
    after[pass] = alloc::count;
  }
  ctx.count("allocations recorded", alloc::seq);
  if (after[3] > after[2] && after[2] > after[1])
  {
    std::map<std::string, std::pair<long, long> > by;
    alloc::each(mark[3], [&](alloc::Rec &r) { auto &x = by[r.label]; ++x.first; x.second += r.n;});
    for (auto &x : by)
    {
      ctx.label = x.first; std::string what = x.first.substr(0, x.first.find_first_of(" :"));
      ctx.fail("left:" + ctx.part + ":" + what, vt::str("in every repetition ", x.second.first, " allocations of ", x.second.second, " bytes are left behind"));
    }
    alloc::report(mark[3]);
  }
#else
  try { vt_main(ctx);}
  catch (std::exception const &e)
  { ctx.fail("uncaught-exception", std::string(e.what()));}
#endif
  ctx.finish();
  return 0;
}
#endif
