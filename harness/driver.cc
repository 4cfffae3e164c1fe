// Runs the real main_driver.cc (DRIVER) on simulated ranks.   driver SCRATCH < scenarios
//   scenario <name> <nranks> <seed> <policy> <rendezvous>
//   par <line of the parameter file>
//   lim <v1> <v2> ...            scripted smallest limits, in units of 2^-20, one per call
//   p <id> <type> <x..> <v..> <h> <m> <rho> <P> <u>
//   dt <timestep> <time>         restart: what the snapshot says
//   end
// Input and output of particles (io.h) are replaced by memory and log.
#include "common.h"
#include "simmpi.h"
#include <mpi.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cassert>
#include <hdf5.h>
// memory nobody has written reads as NaN
static void * poisoned(size_t n) {
  void * p = malloc(n ? n : 1);
  if(!p) abort();
  return memset(p, 0xff, n);
}
void * operator new(size_t n) { return poisoned(n); }
void * operator new[](size_t n) { return poisoned(n); }
void operator delete(void * p) noexcept { free(p); }
void operator delete(void * p, size_t) noexcept { free(p); }
void operator delete[](void * p) noexcept { free(p); }
void operator delete[](void * p, size_t) noexcept { free(p); }
static int g_r, g_n;
static std::string num(double v) {
  if(!std::isfinite(v))
    return "\"" + std::to_string(v) + "\"";
  char b[40];
  snprintf(b, 40, "%.17g", v);
  return b;
}
struct LineLog : std::streambuf { // lines with exactly two numbers at the end: the screen output
  std::string cur;
  int overflow(int c) override {
    if(c != '\n') { cur += (char)c; return c; }
    std::string s;
    for(size_t i = 0; i < cur.size(); ++i) {
      if(cur[i] == 27) { while(i < cur.size() && cur[i] != 'm') ++i; continue; }
      s += cur[i];
    }
    cur.clear();
    if(s.rfind(']') != std::string::npos) s = s.substr(s.rfind(']') + 1); // stamp
    long it;
    double t;
    char rest[8];
    size_t k = s.find_first_not_of(' ');
    if(sim_active() && k != std::string::npos && sscanf(s.c_str() + k, "%ld %lf %7s", &it, &t, rest) == 2 && s.find('e', k) != std::string::npos && std::isdigit((unsigned char)s[k] ))
      sim_log(hc::J().t("e", "screen").i("r", g_r).i("it", it).raw("t", num(t)).str());
    return c;
  }
};
// before the logging facility remembers the stream buffer
static LineLog g_log;
static struct Early { Early() { std::clog.rdbuf(&g_log); } } g_early;
#define _mpisph_io_h_
#include "default_physics.h"
#include "params.h"
struct P { int id, type; double x[3], v[3], h, m, rho, pr, u; };
struct Sc {
  std::string name, par;
  int nr, policy, rdv;
  uint64_t seed;
  std::vector<long> lim;
  std::vector<P> ps;
  double rdt = -1, rtime = 0;
} S;
template<class V>
static std::string vec(const V & v) {
  std::string s = "[";
  for(size_t d = 0; d < gdimension; ++d) s += (d ? "," : "") + num(v[d]);
  return s + "]";
}
static bool g_loaded = false; // the particles are there: the loop starts
namespace io {
void inputDataHDF5(std::vector<body> & bodies, const char *, const char *, int64_t & total, int64_t & local, int start, MPI_Comm = MPI_COMM_WORLD) {
  int64_t n = S.ps.size(), lo = 0;
  for(int r = 0; r < g_r; ++r) lo += n / g_n + (r < n % g_n);
  local = n / g_n + (g_r < n % g_n);
  total = n;
  bodies.clear();
  bodies.resize(local);
  for(int64_t i = 0; i < local; ++i) {
    const P & p = S.ps[lo + i];
    body & b = bodies[i];
    point_t x, v;
    for(size_t d = 0; d < gdimension; ++d) { x[d] = p.x[d]; v[d] = p.v[d]; }
    b.set_coordinates(x);
    b.setVelocity(v);
    b.set_radius(p.h);
    b.set_mass(p.m);
    b.setDensity(p.rho);
    b.setPressure(p.pr);
    b.setInternalenergy(p.u);
    b.set_id(p.id);
    b.setType(p.type);
    b.set_state(0);
    b.setDt(0);
  }
  if(start != 0 && S.rdt >= 0) {
    physics::dt = S.rdt;
    physics::totaltime = S.rtime;
  }
  g_loaded = true;
}
void outputDataHDF5(std::vector<body> & bodies, const char *, int64_t iteration, double time, MPI_Comm = MPI_COMM_WORLD) {
  MPI_Barrier(MPI_COMM_WORLD);
  std::string s = "[";
  for(auto & b : bodies)
    s += (s.size() > 1 ? "," : "") +
         hc::J().i("id", b.id()).i("type", b.type()).raw("x", vec(b.coordinates())).raw("v", vec(b.getVelocity())).raw("a", vec(b.getAcceleration())).raw("g", vec(b.getGAcceleration()))
           .raw("h", num(b.radius())).raw("m", num(b.mass())).raw("rho", num(b.getDensity())).raw("P", num(b.getPressure())).raw("cs", num(b.getSoundspeed()))
           .raw("u", num(b.getInternalenergy())).raw("E", num(b.getTotalenergy())).raw("du", num(b.getDudt())).raw("dE", num(b.getDedt())).raw("gp", num(b.getGPotential()))
           .raw("vh", vec(b.getVelocityhalf())).raw("al", num(b.getAlpha())).raw("vs", num(b.getSignalspeed())).i("nb", b.getNeighbors()).str();
  sim_log(hc::J().t("e", "h5").i("r", g_r).i("it", iteration).raw("t", num(time)).raw("tt", num(physics::totaltime)).raw("dt", num(physics::dt)).raw("b", s + "]").str());
}
} // namespace io
#include "analysis.h"
#include "bodies_system.h"
#include "diagnostic.h"
// the limit of every particle: scripted, or the real one; the smallest of a call is logged
static int g_call = -1;
static double g_min = 1e300;
static int64_t g_cnt = 0;
static void flush_limits() {
  if(g_cnt)
    sim_log(hc::J().t("e", "lim").i("r", g_r).i("it", physics::iteration).i("n", g_cnt).raw("min", num(g_min)).str());
  g_cnt = 0;
  g_min = 1e300;
}
namespace physics {
void verif_compute_dt(body & b) {
  if(S.lim.empty())
    compute_dt(b);
  else {
    if(!g_cnt) ++g_call;
    const long n = S.ps.size(), v = S.lim[g_call % S.lim.size()];
    const long k = (b.id() == S.ps[g_call % n].id) ? 1 : 1 + (b.id() * 7 + g_call) % 3;
    b.setDt(v * k / 1048576.);
  }
  g_min = std::min(g_min, b.getDt());
  ++g_cnt;
}
} // namespace physics
static int64_t g_it = -1;
static void watch() {
  sim_on_call = nullptr;
  flush_limits();
  if(g_loaded && g_it != physics::iteration) {
    g_it = physics::iteration;
    sim_log(hc::J().t("e", "at").i("r", g_r).i("it", g_it).raw("t", num(physics::totaltime)).str());
  }
  sim_on_call = watch;
}
#define compute_dt verif_compute_dt
#include DRIVER
#undef compute_dt
static void run(const Sc & sc, const std::string & dir) {
  S = sc;
  const std::string d = dir + "/" + sc.name;
  mkdir(d.c_str(), 0700);
  if(chdir(d.c_str())) abort();
  { std::ofstream f("input.par"); f << sc.par; }
  SimConfig c;
  c.nranks = sc.nr;
  c.seed = sc.seed;
  c.policy = sc.policy;
  c.rendezvous = sc.rdv;
  c.max_steps = 200000000;
  c.max_wall_s = 120;
  std::cout << hc::J().t("e", "scenario").t("name", sc.name).i("ranks", sc.nr).i("n", sc.ps.size()).str() << "\n" << std::flush;
  g_n = sc.nr;
  auto r = sim_run(c, [&](int rank) {
    g_r = rank;
    std::cout.rdbuf(&g_log);
    sim_on_call = watch;
    char a0[] = "driver", a1[] = "input.par";
    char * av[] = {a0, a1, nullptr};
    flecsi::execution::specialization_tlt_init(2, av);
    watch();
    sim_log(hc::J().t("e", "exit").i("r", rank).i("it", physics::iteration).raw("t", num(physics::totaltime)).str());
    sim_on_call = nullptr;
  });
  for(auto & s : r.logs)
    std::cout << s << "\n";
  for(const char * f : {"scalar_reductions.dat", "diagnostic.dat"}) {
    std::ifstream in(f);
    for(std::string l; std::getline(in, l);)
      if(l[0] == '#')
        std::cout << hc::J().t("e", "head").t("row", l).str() << "\n";
      else
        std::cout << hc::J().t("e", f[0] == 's' ? "scalar" : "diag").t("row", l).str() << "\n";
  }
  std::cout << hc::J().t("e", "end").t("outcome", r.ok ? "ok" : r.error).i("leftover", r.leftover).i("msgs", r.messages).str() << "\n" << std::flush;
  unlink("scalar_reductions.dat");
  unlink("diagnostic.dat");
  unlink("input.par");
  if(chdir("/")) abort();
  rmdir(d.c_str());
}
int main(int, char ** argv) {
  std::string line;
  Sc s;
  while(std::getline(std::cin, line)) {
    std::istringstream is(line);
    std::string w;
    is >> w;
    if(w == "scenario") {
      s = Sc();
      is >> s.name >> s.nr >> s.seed >> s.policy >> s.rdv;
    }
    else if(w == "par") {
      std::getline(is, line);
      s.par += line + "\n";
    }
    else if(w == "lim")
      for(long v; is >> v;) s.lim.push_back(v);
    else if(w == "dt")
      is >> s.rdt >> s.rtime;
    else if(w == "p") {
      P p;
      is >> p.id >> p.type;
      for(size_t d = 0; d < gdimension; ++d) is >> p.x[d];
      for(size_t d = 0; d < gdimension; ++d) is >> p.v[d];
      is >> p.h >> p.m >> p.rho >> p.pr >> p.u;
      s.ps.push_back(p);
    }
    else if(w == "end") {
      run(s, argv[1]);
      if(sim_tired())
        break;
    }
  }
}
