// C17: periodic boundaries of the real body_system on simulated ranks.
//
// stdin: scenarios
//   scenario <name> <nranks> <seed> <policy> <rendezvous> <iters> <periodic bits> <L..dim>
//   p <id> <rank> <x..dim> <h> <m>          initial particles
//   q <iter> <id> <x..dim> <h>              position before iteration 2, 3, ...
//   end
#include "simmpi.h"
#include "common.h"
#include <mpi.h>
#include <unistd.h>
#include <cassert>
#include <hdf5.h>
#include "psort.h"
#include "io.h"
#include "utils.h"
#include "default_physics.h"
#define private public // only to set the global particle count, normally set by read_bodies
#include "bodies_system.h"
#undef private
#include "default_physics.h"

struct P { int id, rank; long x[3]; long h, m; };
struct Q { int it; P p; };
struct Sc {
  std::string name;
  int nr, policy, rdv, iters, per;
  long seed, L[3];
  std::vector<P> ps;
  std::vector<Q> qs;
};
using bsys = body_system<double, gdimension>;
template<class B>
auto set_total(B & b, long n, int) -> decltype((void)(b.totalnbodies_ = n)) { b.totalnbodies_ = n; }
template<class B>
void set_total(B &, long, long) {}

static void attrs(body & b, int id, bool set, bool & ok) {
  int k = 0;
  auto v = [&]() { return (double)(id * 64 + k++); };
  auto pt = [&]() { point_t p; double w = v(); for(size_t d = 0; d < gdimension; ++d) p[d] = w + d * 100000.; return p; };
#define A(NAME, VAL) { auto w = VAL; if(set) b.set##NAME(w); else ok = ok && b.get##NAME() == w; }
  A(Velocity, pt()) A(Velocityhalf, pt()) A(Acceleration, pt()) A(GAcceleration, pt())
  A(GPotential, v()) A(Pressure, v()) A(Entropy, v()) A(Electronfraction, v())
  A(Temperature, v()) A(Soundspeed, v()) A(Internalenergy, v()) A(Totalenergy, v())
  A(Dudt, v()) A(Dedt, v()) A(Adiabatic, v()) A(Dadt, v()) A(Dt, v()) A(Alpha, v())
  A(DivergenceV, v()) A(Ddivvdt, v()) A(Trigger, v()) A(Xi, v()) A(TraceSS, v()) A(GradV, v())
  A(Pressuremin, v()) A(Signalspeed, v())
#undef A
}
template<class B>
static std::string ent(B & b) { // [token, type, id, mass, h, attributes kept, x...]
  int tok = (int)hc::asint(b.getDensity());
  bool ok = tok >= 0;
  if(ok) attrs(const_cast<body &>((const body &)b), tok, false, ok);
  std::string s = "[" + std::to_string(tok) + "," + std::to_string((int)b.getType()) + "," + std::to_string(b.id()) + "," + std::to_string(hc::asint(b.mass())) + "," +
                  std::to_string(hc::asint(b.radius())) + "," + (ok ? "1" : "0");
  for(size_t d = 0; d < gdimension; ++d) s += "," + std::to_string(hc::asint(b.coordinates()[d]));
  return s + "]";
}
static std::string all(bsys & bs) {
  std::string s = "[";
  for(auto & e : bs.getLocalbodies()) s += (s.size() > 1 ? "," : "") + ent(e);
  return s + "]";
}

static void run_rank(const Sc & sc, int rank) {
  param::_periodic_boundary_x = sc.per & 1;
  param::_periodic_boundary_y = sc.per & 2;
  param::_periodic_boundary_z = sc.per & 4;
  param::_box_length = sc.L[0];
  param::_box_width = sc.L[1];
  param::_box_height = sc.L[2];
  bsys bs;
  for(auto & p : sc.ps)
    if(p.rank == rank) {
      body x;
      point_t c;
      bool ok;
      for(size_t d = 0; d < gdimension; ++d) c[d] = (double)p.x[d];
      attrs(x, p.id, true, ok);
      x.set_coordinates(c);
      x.set_radius((double)p.h);
      x.set_mass((double)p.m);
      x.set_id(p.id);
      x.setType(NORMAL);
      x.setDensity(p.id);
      bs.getLocalbodies().push_back(x);
    }
  set_total(bs, (long)sc.ps.size(), 0);
  for(int it = 1; it <= sc.iters; ++it) {
    for(auto & e : bs.getLocalbodies()) {
      if(e.getType() != NORMAL) continue;
      for(auto & q : sc.qs)
        if(q.it == it && q.p.id == (int)e.id()) {
          point_t c;
          for(size_t d = 0; d < gdimension; ++d) c[d] = (double)q.p.x[d];
          e.set_coordinates(c);
          e.set_radius((double)q.p.h);
        }
    }
    sim_log(hc::J().t("e", "before").i("r", rank).raw("ent", all(bs)).str());
    MPI_Barrier(MPI_COMM_WORLD);
    bs.update_iteration();
    sim_log(hc::J().t("e", "after").i("r", rank).raw("ent", all(bs)).i("nloc", bs.getNLocalBodies()).i("ntot", bs.getNBodies()).str());
    MPI_Barrier(MPI_COMM_WORLD);
    bs.apply_in_smoothinglength([&](body & p, std::vector<body *> & nb) {
      if(p.getType() != NORMAL) return;
      std::string s = "[";
      for(auto * q : nb) {
        s += (s.size() > 1 ? ",[" : "[") + std::to_string((int)hc::asint(q->getDensity()));
        for(size_t d = 0; d < gdimension; ++d) s += "," + std::to_string(hc::asint(q->coordinates()[d]));
        s += "]";
      }
      sim_log(hc::J().t("e", "visit").i("r", rank).i("tok", hc::asint(p.getDensity())).raw("nb", s + "]").str());
    });
    MPI_Barrier(MPI_COMM_WORLD);
  }
}

int main(int argc, char ** argv) {
  std::string line;
  Sc sc;
  std::vector<Sc> all;
  while(std::getline(std::cin, line)) {
    std::istringstream is(line);
    std::string w;
    is >> w;
    if(w == "scenario") {
      sc = Sc();
      is >> sc.name >> sc.nr >> sc.seed >> sc.policy >> sc.rdv >> sc.iters >> sc.per;
      sc.L[0] = sc.L[1] = sc.L[2] = 1;
      for(size_t d = 0; d < gdimension; ++d) is >> sc.L[d];
    }
    else if(w == "p") {
      P p;
      is >> p.id >> p.rank;
      for(size_t d = 0; d < gdimension; ++d) is >> p.x[d];
      is >> p.h >> p.m;
      sc.ps.push_back(p);
    }
    else if(w == "q") {
      Q q;
      is >> q.it >> q.p.id;
      for(size_t d = 0; d < gdimension; ++d) is >> q.p.x[d];
      is >> q.p.h;
      sc.qs.push_back(q);
    }
    else if(w == "end")
      all.push_back(sc);
  }
  for(auto & s : all) {
    if(sim_tired()) break;
    SimConfig c;
    c.nranks = s.nr;
    c.seed = s.seed;
    c.policy = s.policy;
    c.rendezvous = s.rdv;
    c.trace = false;
    c.compute_timeout_s = 60;
    c.quiet = getenv("SIM_VERBOSE") == nullptr;
    auto r = sim_run(c, [&](int rank) { run_rank(s, rank); });
    std::vector<long> L(s.L, s.L + gdimension), per;
    for(size_t d = 0; d < gdimension; ++d) per.push_back((s.per >> d) & 1);
    printf("%s\n", hc::J().t("e", "scenario").t("name", s.name).i("dim", gdimension).i("n", s.ps.size()).i("nr", s.nr).a("L", L).a("per", per).i("iters", s.iters).str().c_str());
    for(auto & l : r.logs) printf("%s\n", l.c_str());
    printf("%s\n", hc::J().t("e", "finish").b("ok", r.ok).t("err", r.error).str().c_str());
    fflush(stdout);
  }
  return 0;
}
