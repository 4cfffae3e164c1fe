// C14, C15: snapshots and restarts of the real io.h / body_system with real
// MPI and HDF5; one process launch is one run of the program.
//
// argv: <script> <log prefix> <root: nothing outside of it may be removed> <seed>
// script:
//   sep <0|1>                    one file per step
//   init <iteration>             parameter initial_iteration
//   read <in> <out> <start>
//   fill <version> <owner of particle 0> <owner of 1> ...
//   write <prefix> <iteration> <t> <dt>
#include "common.h"
#include <mpi.h>
#include <limits.h>
#include <unistd.h>
#include <algorithm>
#include <cassert>
#include <hdf5.h>
#include "psort.h"
#include "io.h"
#include "utils.h"
#include "default_physics.h"
#include "bodies_system.h"
#include "default_physics.h"

static std::string root;
static unsigned long wseed;
static int me, np;
static void jitter() { // ranks see the file system at different moments
  static int k = 0;
  unsigned long x = wseed * 6364136223846793005ul + me * 1442695040888963407ul + ++k * 2862933555777941757ul;
  x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ul; x ^= x >> 32;
  if(x % 3 == 0) usleep(x / 3 % 12000);
}
extern "C" {
int __real_access(const char * f, int m);
int __wrap_access(const char * f, int m) { jitter(); int r = __real_access(f, m); int e = errno; jitter(); errno = e; return r; }
static bool inside(const char * f) {
  char d[PATH_MAX], b[PATH_MAX];
  snprintf(b, sizeof b, "%s", f);
  return realpath(dirname(b), d) && (std::string(d) + "/").compare(0, root.size() + 1, root + "/") == 0;
}
int __real_remove(const char * f);
int __wrap_remove(const char * f) { jitter(); if(!inside(f)) { errno = EPERM; return -1; } return __real_remove(f); }
int __real_unlink(const char * f);
int __wrap_unlink(const char * f) { jitter(); if(!inside(f)) { errno = EPERM; return -1; } return __real_unlink(f); }
int __real_rename(const char * a, const char * b);
int __wrap_rename(const char * a, const char * b) { if(!inside(a) || !inside(b)) { errno = EPERM; return -1; } return __real_rename(a, b); }
}

static double val(long id, int ver, int j) { // any finite double
  unsigned long x = (unsigned long)id * 1000003ul + ver * 7919ul + j * 104729ul + 12345ul;
  x ^= x >> 33; x *= 0xff51afd7ed558ccdul; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ul; x ^= x >> 33;
  double f = (double)(x >> 11) / 9007199254740992.;
  switch(x % 5) {
    case 0: return (double)(long)(x >> 40) - 8000000.;
    case 1: return f;
    case 2: return -f * 1e-150;
    case 3: return f * 1e200;
    default: return 0.1 * (double)(x % 1000);
  }
}
static point_t pv(long id, int ver, int j) {
  point_t p;
  for(size_t d = 0; d < gdimension; ++d) p[d] = val(id, ver, j + d);
  return p;
}
static std::string hex(double v) {
  if(v == 0.) v = 0.;
  char b[40];
  unsigned long u;
  memcpy(&u, &v, 8);
  sprintf(b, "%lx", u);
  return b;
}
static std::string hp(const point_t & p) {
  std::string s = "\"";
  for(size_t d = 0; d < 3; ++d) s += (d ? "," : "") + hex(d < gdimension ? p[d] : 0.);
  return s + "\"";
}
template<class B>
static std::string row(B & b, bool all) {
  std::string s = "[\"" + std::to_string((long)b.id()) + "\"," + std::to_string((int)b.getType()) + "," + std::to_string((int)b.state()) +
    "," + hp(b.coordinates()) + "," + hp(b.getVelocity());
  for(double v : {(double)b.mass(), b.getDensity(), (double)b.radius(), b.getPressure(), b.getInternalenergy(), b.getDt()}) s += ",\"" + hex(v) + "\"";
  if(all) {
    s += "," + hp(b.getAcceleration() + b.getGAcceleration());
    for(double v : {b.getGradV(), b.getTraceSS(), b.getAlpha(), b.getDivergenceV(), b.getDdivvdt(), b.getTrigger(), b.getXi()}) s += ",\"" + hex(v) + "\"";
    s += "," + std::to_string((long)b.getNeighbors());
  }
  return s + "]";
}
int main(int argc, char ** argv) {
  MPI_Init(&argc, &argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &me);
  MPI_Comm_size(MPI_COMM_WORLD, &np);
  log_set_output_rank(0);
  std::string log = argv[2];
  root = argv[3];
  wseed = atol(argv[4]);
  FILE * out = fopen((log + "." + std::to_string(me)).c_str(), "w");
  std::ifstream in(argv[1]);
  std::string line, w;
  auto * bs = new body_system<double, gdimension>();
  auto rows = [&](bool all) {
    std::string s = "[";
    for(auto & b : bs->getLocalbodies()) s += (s.size() > 1 ? "," : "") + row(b, all);
    return s + "]";
  };
  int k = 0;
  while(std::getline(in, line)) {
    std::istringstream is(line);
    if(!(is >> w)) continue;
    ++k;
    if(w == "sep") { int v; is >> v; param::_out_h5data_separate_iterations = v; }
    else if(w == "init") { int v; is >> v; param::_initial_iteration = v; }
    else if(w == "read") {
      std::string a, b;
      int s;
      is >> a >> b >> s;
      physics::totaltime = -1.; physics::dt = -2.;
      bs->read_bodies(a.c_str(), b.c_str(), s);
      fprintf(out, "%s\n", hc::J().t("e", "read").i("k", k).i("r", me).raw("p", rows(false)).i("nloc", bs->getNLocalBodies()).i("ntot", bs->getNBodies())
        .t("t", hex(physics::totaltime)).t("dt", hex(physics::dt)).str().c_str());
    }
    else if(w == "fill") {
      int ver, o;
      is >> ver;
      bs->getLocalbodies().clear();
      for(long id = 0; is >> o; ++id) {
        if(o != me) continue;
        long wid = ver % 3 == 0 ? id * 100000007l : id; // ids are 64 bit
        body b{};
        int j = 1;
        b.set_id(wid);
        b.set_coordinates(pv(id, ver, 100)); b.setVelocity(pv(id, ver, 110));
        b.setAcceleration(pv(id, ver, 120)); b.setGAcceleration(pv(id, ver, 130));
        auto v = [&]() { return val(id, ver, j++); };
        b.set_mass(v()); b.setDensity(v()); b.set_radius(v()); b.setPressure(v()); b.setInternalenergy(v()); b.setDt(v());
        b.setGradV(v()); b.setTraceSS(v()); b.setAlpha(v()); b.setDivergenceV(v()); b.setDdivvdt(v()); b.setTrigger(v()); b.setXi(v());
        b.setNeighbors((size_t)((id * 7 + ver) % 90));
        b.setType((int)((id + ver) % 3 == 0));
        b.set_state((int)((id * 3 + ver) % 4));
        bs->getLocalbodies().push_back(b);
      }
    }
    else if(w == "write") {
      std::string p;
      int it;
      double t, dt;
      is >> p >> it >> t >> dt;
      physics::totaltime = t; physics::dt = dt; physics::iteration = it;
      fprintf(out, "%s\n", hc::J().t("e", "write").i("k", k).i("r", me).raw("p", rows(true)).str().c_str());
      fflush(out);
      bs->write_bodies(p.c_str(), it, t);
      fprintf(out, "%s\n", hc::J().t("e", "wrote").i("k", k).i("r", me).str().c_str());
    }
    fflush(out);
  }
  fprintf(out, "{\"e\":\"end\",\"r\":%d}\n", me);
  fclose(out);
  MPI_Barrier(MPI_COMM_WORLD);
  MPI_Finalize();
  return 0;
}
