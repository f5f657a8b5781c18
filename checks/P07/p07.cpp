// P07: library objects nest, finalisation happens once, cycles repeat.
// Every scenario runs in a forked process of its own; MPI_Init and MPI_Finalize
// are intercepted through the MPI profiling interface and counted.
#include "vt.hpp"
#include <mpi.h>
#include <vsip/initfin.hpp>
#include <vsip/support.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/math.hpp>
#include <vsip/parallel.hpp>
#include <ovxx/library.hpp>
#include <atomic>
#include <thread>
#include <memory>
#include <sys/wait.h>
using namespace vt;
static std::atomic<int> n_init, n_fini, n_attach, n_detach;
extern "C" int MPI_Init(int *a, char ***b) { ++n_init; return PMPI_Init(a, b);}
extern "C" int MPI_Init_thread(int *a, char ***b, int r, int *p) { ++n_init; return PMPI_Init_thread(a, b, r, p);}
extern "C" int MPI_Finalize() { ++n_fini; return PMPI_Finalize();}
extern "C" int MPI_Buffer_attach(void *b, int n) { ++n_attach; return PMPI_Buffer_attach(b, n);}
extern "C" int MPI_Buffer_detach(void *b, int *n) { ++n_detach; return PMPI_Buffer_detach(b, n);}

static int out_fd = -1;
static void tell(char kind, std::string const &key, std::string const &s)
{ std::string l = std::string(1, kind) + key + "\t" + s + "\n"; for (char &c : l) if (c == '\r') c = ' '; if (write(out_fd, l.data(), l.size())) {}}
static void bad(std::string const &key, std::string const &s) { tell('F', key, s);}
static void good(std::string const &s) { tell('O', "", s);}

// the library can be used here
static bool usable(Rng &r)
{
  long n = r.range(1, 40);
  vsip::Vector<float> a(n, 2.f), b(n); b = a * 3.f + 1.f;
  vsip::Matrix<double> m(3, n, 1.); m.row(1) = 5.; double s = vsip::sumval(m);
  float t = vsip::sumval(b);
  if (t != 7.f * n) { bad("unusable", str("sum ", t)); return false;}
  if (s != 7. * n) { bad("unusable", str("matrix sum ", s)); return false;}
  int fin = 0; PMPI_Finalized(&fin);
  if (fin) { bad("finalised-early", "MPI is finalised while a library object exists"); return false;}
  long np = getenv("OMPI_COMM_WORLD_SIZE") ? atol(getenv("OMPI_COMM_WORLD_SIZE")) : 1;
  long rk = getenv("OMPI_COMM_WORLD_RANK") ? atol(getenv("OMPI_COMM_WORLD_RANK")) : 0;
  if (long(vsip::num_processors()) != np || long(vsip::local_processor()) != rk || long(vsip::local_processor_index()) != rk)
  { bad("processors", str(vsip::num_processors(), " ", vsip::local_processor())); return false;}
  return true;
}
struct Obj
{
  std::unique_ptr<vsip::vsipl> v; std::unique_ptr<ovxx::library> l;
};
// random nesting of objects in this thread; ends with none
static void nest(Rng &r, long steps, std::string &trace, int *argc, char ***argv, bool last_global, bool mine_mpi)
{
  std::vector<Obj> os;
  for (long k = 0; k < steps || !os.empty(); ++k)
  {
    bool create = os.empty() || (k < steps && (r.coin() || (last_global && os.size() == 1)));   // one life where only one is possible
    if (create)
    {
      Obj o; int how = int(r.range(0, 3));
      if (how == 0 || !argc) o.v.reset(new vsip::vsipl());
      else if (how == 1) o.v.reset(new vsip::vsipl(*argc, *argv));
      else if (how == 2) o.l.reset(new ovxx::library());
      else o.l.reset(new ovxx::library(*argc, *argv));
      os.push_back(std::move(o)); trace += "+";
    }
    else { os.erase(os.begin() + r.range(0, long(os.size()) - 1)); trace += "-";}
    if (!os.empty()) { if (!usable(r)) return; good(str("usable ", os.size(), " after ", trace));}
    if (!os.empty() && n_fini) { bad("finalised-early", str("MPI_Finalize called while ", os.size(), " objects exist: ", trace)); return;}
    if (k > 4 * steps + 50) break;
  }
  (void)mine_mpi;
}
// kinds of scenario
static void single(Rng &r)            // the library initialises MPI; one life
{
  std::string t; std::vector<std::string> words;
  static char const *opts[] = {"prog", "--verbose", "-n", "3", "", "--ovxx", "a b", "--", "file", "--vsip-x=1", "-mca", "x"};
  long n = r.range(1, 9);
  for (long i = 0; i < n; ++i) words.push_back(opts[i == 0 ? 0 : r.range(0, 9)]);
  std::vector<char *> av; for (auto &w : words) av.push_back(&w[0]); av.push_back(0);
  int argc = int(n); char **argv = av.data();
  if (r.coin()) nest(r, r.range(1, 20), t, &argc, &argv, true, true); else nest(r, r.range(1, 20), t, 0, 0, true, true);
  if (n_init != 1) bad("initialised", str("MPI initialised ", int(n_init), " times"));
  if (n_fini != 1) bad("finalised", str("MPI finalised ", int(n_fini), " times after ", t)); else good("finalised once after " + t);
  if (argc != int(n)) bad("arguments", str("argc ", argc, " expected ", n));
  else for (long i = 0; i < n; ++i) if (argv[i] != words[i]) bad("arguments", str("argv[", i, "] = ", argv[i]));
  if (argc == int(n) && argv[n]) bad("arguments", "argv not terminated");
}
static void cycles(Rng &r)            // the application owns MPI; several lives
{
  int c = 0; char **v = 0; PMPI_Init(&c, &v);
  long lives = r.range(2, 5);
  for (long k = 0; k < lives; ++k)
  {
    std::string t;
    nest(r, r.range(1, 8), t, 0, 0, false, false);
    if (n_init) bad("initialised", "MPI initialised again");
    if (n_fini) { bad("finalised", "the application's MPI was finalised"); return;}
    int fin = 0; PMPI_Finalized(&fin); if (fin) { bad("finalised", "the application's MPI was finalised"); return;}
    // what the library attached must be gone: the application may attach its own buffer
    if (n_attach != n_detach) bad("buffer-left-attached", str(int(n_attach), " attached, ", int(n_detach), " detached"));
    else
    {
      std::vector<char> buf(4000 + MPI_BSEND_OVERHEAD), got(100); int me; PMPI_Comm_rank(MPI_COMM_WORLD, &me);
      if (PMPI_Buffer_attach(buf.data(), int(buf.size())) != MPI_SUCCESS) bad("buffer-left-attached", "the application can not attach a buffer");
      else
      {
        std::vector<char> x(100, char(k + 1)); MPI_Request q; MPI_Status s;
        MPI_Irecv(got.data(), 100, MPI_CHAR, me, 7, MPI_COMM_WORLD, &q); MPI_Bsend(x.data(), 100, MPI_CHAR, me, 7, MPI_COMM_WORLD); MPI_Wait(&q, &s);
        if (got != x) bad("mpi-unusable", "message"); void *p; int z; PMPI_Buffer_detach(&p, &z);
      }
    }
    good(str("life ", k, " ", t));
  }
  PMPI_Finalize();
}
static void threads(Rng &r)           // every thread has its own objects; with or without one outside
{
  int c = 0; char **v = 0, p; int got; PMPI_Init_thread(&c, &v, MPI_THREAD_MULTIPLE, &got); (void)p;
  std::unique_ptr<vsip::vsipl> outer; bool hold = r.coin();
  if (hold) outer.reset(new vsip::vsipl());
  for (int round = 0; round < 3; ++round)
  {
    std::vector<std::thread> ts; std::atomic<int> go(0); long n = r.range(2, 6);
    for (long i = 0; i < n; ++i)
    {
      uint64_t s = r.next();
      ts.emplace_back([s, &go, n]() { Rng q(s); ++go; while (go < n) std::this_thread::yield();
        for (int k = 0; k < 4; ++k) { std::string t; nest(q, q.range(1, 4), t, 0, 0, false, false);} });
    }
    for (auto &t : ts) t.join();
    if (n_fini) { bad("finalised", "the application's MPI was finalised"); return;}
    if (!hold && n_attach != n_detach) bad("buffer-left-attached", str(int(n_attach), " attached, ", int(n_detach), " detached with ", n, " threads"));
    if (hold) usable(r);
    good(str("threads ", n, " hold ", hold, " round ", round));
  }
  outer.reset();
  PMPI_Finalize();
}
static void outer_thread(Rng &r)      // library initialises MPI; workers come and go
{
  {
    vsip::vsipl lib;
    for (int k = 0; k < 3; ++k)
    {
      std::vector<std::thread> ts; long n = r.range(1, 4);
      for (long i = 0; i < n; ++i) { uint64_t s = r.next(); ts.emplace_back([s]() { Rng q(s); std::string t; nest(q, q.range(1, 6), t, 0, 0, false, false);});}
      usable(r);
      for (auto &t : ts) t.join();
      if (n_fini) { bad("finalised-early", "a worker thread finalised MPI"); return;}
    }
    usable(r);
  }
  if (n_init != 1 || n_fini != 1) bad("finalised", str("MPI initialised ", int(n_init), " and finalised ", int(n_fini), " times"));
  else good(str("workers came and went ", r.range(0, 1000)));
}
typedef void (*Scenario)(Rng &);
static char const *names[] = {"one life", "several lives", "threads", "workers"};
static Scenario scen[] = {single, cycles, threads, outer_thread};

int main(int argc, char **argv)
{
  Ctx ctx; parse(ctx, argc, argv);
  char const *rk = getenv("OMPI_COMM_WORLD_RANK"); ctx.rank = rk ? atoi(rk) : 0;
  long reps = rk ? 1 : ctx.n(6);
  for (long q = 0; q < reps; ++q)
    for (int k = 0; k < 4; ++k)
    {
      int kind = k; if (rk) { if (k) break; kind = ctx.part == "np_one" ? 0 : 1;}
      uint64_t seed = ctx.rng.next();
      ctx.begin(str(names[kind], " #", q));
      int fd[2]; if (pipe(fd)) return 3;
      pid_t pid = rk ? 0 : fork();
      if (pid == 0 && !rk)
      { close(fd[0]); out_fd = fd[1]; alarm(60); Rng r(seed); scen[kind](r); tell('E', "", ""); _exit(0);}
      int st = 0; std::string all; char buf[4096]; ssize_t n;
      if (rk)
      { // under mpirun: this process is the scenario
        char tmp[] = "/tmp/p07XXXXXX"; out_fd = mkstemp(tmp); unlink(tmp);
        Rng r(seed); scen[kind](r); tell('E', "", "");
        lseek(out_fd, 0, SEEK_SET); while ((n = read(out_fd, buf, sizeof buf)) > 0) all.append(buf, n);
      }
      else
      { close(fd[1]); while ((n = read(fd[0], buf, sizeof buf)) > 0) all.append(buf, n); close(fd[0]); waitpid(pid, &st, 0);}
      bool end = false; std::istringstream is(all); std::string l;
      while (std::getline(is, l))
      {
        std::string body = l.size() > 1 ? l.substr(1) : ""; size_t t = body.find('\t'); if (t == std::string::npos) t = 0;
        if (l[0] == 'F') ctx.fail(str(names[kind], ":", body.substr(0, t)), body.substr(t + 1));
        else if (l[0] == 'O') ctx.ok(str(names[kind], body.substr(t + 1)));
        else if (l[0] == 'E') end = true;
      }
      if (!end || st) ctx.fail(str(names[kind], ":abnormal-end"), str("status ", st, WIFSIGNALED(st) ? str(" signal ", WTERMSIG(st)) : "", " after: ", all.substr(all.size() > 300 ? all.size() - 300 : 0)));
    }
  ctx.finish();
  return 0;
}
