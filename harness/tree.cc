// Drives the real body_system / tree_topology on simulated ranks.
//
// stdin: scenarios
//   scenario <name> <nranks> <seed> <policy> <rendezvous> <mode> <mac*100> <rounds> <iters>
//   p <id> <rank> <x..dim> <h> <m>          initial particles
//   q <iter> <id> <x..dim> <h>              position at iteration 2, 3, ...
//   end
// mode: bit0 dump tree after build, bit1 dump after traversal, bit2 sph,
//       bit3 fmm, bit5 network trace, bit6 all attributes
// stdout: NDJSON events.
#include "simmpi.h"
#include "common.h"
#include <mpi.h>
#include <unistd.h>
#include <cassert>
#include <hdf5.h>
#include "psort.h"
#include "io.h"
#include "utils.h"
#include "default_physics.h"
#define private public // only to set the global particle count, normally set by read_bodies
#include "bodies_system.h"
#undef private
#include "default_physics.h"

struct P { int id, rank; long x[3]; long h, m; };
struct Q { int it; P p; };
struct Sc {
  std::string name;
  int nr, policy, rdv, mode, mac, rounds, iters;
  std::vector<Q> qs;
  long seed;
  std::vector<P> ps;
};

static std::vector<int> digits(uint64_t v) {
  std::vector<int> d;
  int dim = gdimension;
  while(v > 1) { d.insert(d.begin(), (int)(v & ((1u << dim) - 1))); v >>= dim; }
  if(v != 1) d.insert(d.begin(), -1);
  return d;
}

using bsys = body_system<double, gdimension>;
template<class B>
auto set_total(B & b, long n, int) -> decltype((void)(b.totalnbodies_ = n)) { b.totalnbodies_ = n; }
template<class B>
void set_total(B &, long, long) {}


static void dump_tree(bsys & bs, int rank, const char * ev) {
  auto * t = bs.tree();
  using hcell_t = tree_topology_t::hcell_t;
  std::string cells = "[";
  bool first = true;
  t->traversal(t->root(), [&](hcell_t * c) {
    hc::J j;
    std::vector<int> ch;
    for(int d = 0; d < (1 << gdimension); ++d)
      if(c->get_child(d)) ch.push_back(d);
    j.a("k", digits(c->key().value())).i("own", c->owner()).a("ch", ch);
    if(c->is_unset()) {
      j.t("t", "unset");
    }
    else if(c->is_node()) {
      auto * n = t->get_node(c);
      j.t("t", "node").i("cnt", n->sub_entities()).i("m", hc::asint(n->mass()));
      std::vector<long long> s, lo, hi;
      for(size_t d = 0; d < gdimension; ++d) {
        s.push_back(hc::asint(n->coordinates()[d] * n->mass(), 1., 1e-5));
        lo.push_back(hc::asint(n->bmin()[d], 2.));
        hi.push_back(hc::asint(n->bmax()[d], 2.));
      }
      j.a("s", s).a("lo", lo).a("hi", hi);
      j.i("rad", (long long)std::ceil(n->radius() * n->mass() + 1e-6));
      j.i("lap", (long long)std::ceil(n->lap() * n->mass() + 1e-6));
    }
    else {
      auto * e = t->get_entity(c);
      std::vector<long long> x;
      for(size_t d = 0; d < gdimension; ++d) x.push_back(hc::asint(e->coordinates()[d]));
      j.t("t", "ent").i("id", e->id()).a("x", x).i("h", hc::asint(e->radius())).i("m", hc::asint(e->mass())).a("fk", digits(e->key().value()));
    }
    if(!first) cells += ",";
    first = false;
    cells += j.str();
    return true;
  });
  cells += "]";
  sim_log(hc::J().t("e", ev).i("r", rank).raw("cells", cells).str());
}

// every attribute gets a value that identifies the particle and the attribute
static const int NAT = 34;
static void set_attrs(body & b, int id) {
  int k = 0;
  auto v = [&]() { return (double)(id * 64 + k++); };
  auto pt = [&]() { point_t p; double w = v(); for(size_t d = 0; d < gdimension; ++d) p[d] = w + d * 100000.; return p; };
  b.setVelocity(pt()); b.setVelocityhalf(pt()); b.setAcceleration(pt()); b.setGAcceleration(pt());
  b.setGPotential(v()); b.setPressure(v()); b.setEntropy(v()); b.setElectronfraction(v());
  b.setTemperature(v()); b.setSoundspeed(v()); b.setInternalenergy(v()); b.setTotalenergy(v());
  b.setDudt(v()); b.setDedt(v()); b.setAdiabatic(v()); b.setDadt(v()); b.setDt(v()); b.setAlpha(v());
  b.setDivergenceV(v()); b.setDdivvdt(v()); b.setTrigger(v()); b.setXi(v()); b.setTraceSS(v()); b.setGradV(v());
  b.setPressuremin(v()); b.setSignalspeed(v()); b.setNeighbors((size_t)v());
  b.setType(id % 3 == 0 ? WALL : NORMAL);
  b.set_state(id % 4);
}
static std::vector<long long> get_attrs(body & b) {
  std::vector<long long> r;
  auto v = [&](double w) { r.push_back(hc::asint(w)); };
  auto pt = [&](const point_t & p) { // all components must agree
    double w = p[0];
    for(size_t d = 0; d < gdimension; ++d) if(p[d] != w + d * 100000.) w = -1;
    v(w);
  };
  pt(b.getVelocity()); pt(b.getVelocityhalf()); pt(b.getAcceleration()); pt(b.getGAcceleration());
  v(b.getGPotential()); v(b.getPressure()); v(b.getEntropy()); v(b.getElectronfraction());
  v(b.getTemperature()); v(b.getSoundspeed()); v(b.getInternalenergy()); v(b.getTotalenergy());
  v(b.getDudt()); v(b.getDedt()); v(b.getAdiabatic()); v(b.getDadt()); v(b.getDt()); v(b.getAlpha());
  v(b.getDivergenceV()); v(b.getDdivvdt()); v(b.getTrigger()); v(b.getXi()); v(b.getTraceSS()); v(b.getGradV());
  v(b.getPressuremin()); v(b.getSignalspeed()); v((double)b.getNeighbors());
  v((double)(int)b.getType()); v((double)(int)b.state());
  return r;
}
template<class B>
static std::vector<long long> ipos(B & b) {
  std::vector<long long> x;
  for(size_t d = 0; d < gdimension; ++d) x.push_back(hc::asint(b.coordinates()[d]));
  return x;
}
template<class B>
static long long packpos(B & b) {
  long long p = 0, f = 1;
  for(size_t d = 0; d < gdimension; ++d) {
    long long x = hc::asint(b.coordinates()[d]);
    if(x < 0 || x > 1023) return -1;
    p += x * f;
    f *= 1024;
  }
  return p;
}
template<class V>
static std::string vv(const V & v) {
  std::string a = hc::J().a("k", v).str();
  return a.substr(5, a.size() - 6);
}

static double dist(const point_t & a, const point_t & b) {
  double d = 0;
  for(size_t k = 0; k < gdimension; ++k) d += std::pow(a[k] - b[k], 2);
  return std::sqrt(d);
}
static long long up(double v) { return (long long)std::ceil(v * 1000 + 1e-3); }
static long long down(double v) { return (long long)std::floor(v * 1000 - 1e-3); }

static void run_rank(const Sc & sc, int rank) {
  bsys bs;
  {
    auto & b = bs.getLocalbodies();
    for(auto & p : sc.ps)
      if(p.rank == rank) {
        body x;
        point_t c;
        for(size_t d = 0; d < gdimension; ++d) c[d] = (double)p.x[d];
        set_attrs(x, p.id);
        x.set_coordinates(c);
        x.set_radius((double)p.h);
        x.set_mass((double)p.m);
        x.set_id(p.id);
        x.setDensity(p.id * 64);
        b.push_back(x);
      }
  }
  set_total(bs, (long)sc.ps.size(), 0);
  bs.setMacangle(sc.mac / 100.);
  for(int iter = 1; iter <= sc.iters; ++iter) {
    if(iter > 1) { // owners move their particles
      std::vector<int> ids;
      for(auto & e : bs.getLocalbodies())
        for(auto & q : sc.qs)
          if(q.it == iter && q.p.id == (int)e.id()) {
            point_t c;
            for(size_t d = 0; d < gdimension; ++d) c[d] = (double)q.p.x[d];
            e.set_coordinates(c);
            e.set_radius((double)q.p.h);
          }
      MPI_Barrier(MPI_COMM_WORLD);
    }
    {
      std::vector<int> ids, h, m, ver;
      std::string xs = "[";
      for(auto & e : bs.getLocalbodies()) {
        ids.push_back(e.id());
        h.push_back(hc::asint(e.radius()));
        m.push_back(hc::asint(e.mass()));
        ver.push_back(hc::asint(e.getDensity()) - 64 * (int)e.id());
        xs += (xs.size() > 1 ? "," : "") + vv(ipos(e));
      }
      sim_log(hc::J().t("e", "init").i("r", rank).i("it", iter).a("ids", ids).raw("x", xs + "]").a("h", h).a("m", m).a("ver", ver).str());
    }
    MPI_Barrier(MPI_COMM_WORLD);
    bs.update_iteration();
    {
      std::vector<int> ids, h, m, ver;
      std::string ks = "[", as = "[", xs = "[";
      for(auto & e : bs.getLocalbodies()) {
        ids.push_back(e.id());
        h.push_back(hc::asint(e.radius()));
        m.push_back(hc::asint(e.mass()));
        ver.push_back(hc::asint(e.getDensity()) - 64 * (int)e.id());
        ks += (ks.size() > 1 ? "," : "") + vv(digits(e.key().value()));
        xs += (xs.size() > 1 ? "," : "") + vv(ipos(e));
        if(sc.mode & 64) as += (as.size() > 1 ? "," : "") + vv(get_attrs(e));
      }
      std::vector<long long> lo, hi;
      for(size_t d = 0; d < gdimension; ++d) {
        lo.push_back(hc::asint(bs.tree()->range()[0][d]));
        hi.push_back(hc::asint(bs.tree()->range()[1][d]));
      }
      sim_log(hc::J().t("e", "sorted").i("r", rank).a("ids", ids).raw("keys", ks + "]").raw("x", xs + "]").a("h", h).a("m", m).a("ver", ver).raw("at", as + "]").a("lo", lo).a("hi", hi).i("nloc", bs.getNLocalBodies()).i("ntot", bs.getNBodies()).str());
    }
    MPI_Barrier(MPI_COMM_WORLD);
    if(sc.mode & 1) dump_tree(bs, rank, "tree");
    MPI_Barrier(MPI_COMM_WORLD);
    for(int round = 1; round <= sc.rounds; ++round) {
      if(sc.mode & 4) {
        if(sc.mode & 32) sim_log(hc::J().t("e", "enter").i("r", rank).str());
        bs.apply_in_smoothinglength([&](body & p, std::vector<body *> & nb) {
          std::vector<int> ids, val;
          std::vector<long long> nx, nh;
          for(auto * q : nb) {
            ids.push_back((int)q->id());
            val.push_back((int)hc::asint(q->getDensity()) - 64 * (int)q->id()); // version of the value seen
            nx.push_back(packpos(*q));
            nh.push_back(hc::asint(q->radius()) * 1000 + hc::asint(q->mass()));
          }
          sim_log(hc::J().t("e", "visit").i("r", rank).i("id", p.id()).a("nb", ids).a("ver", val).a("nx", nx).a("nh", nh).str());
        });
        if(sc.mode & 32) sim_log(hc::J().t("e", "leave").i("r", rank).str());
        sim_log(hc::J().t("e", "sphdone").i("r", rank).str());
        MPI_Barrier(MPI_COMM_WORLD);
        if(sc.mode & 2) dump_tree(bs, rank, "tree2");
        MPI_Barrier(MPI_COMM_WORLD);
      }
      if(sc.mode & 8) {
        using entity_t = tree_topology_t::entity_t;
        if(sc.mode & 32) sim_log(hc::J().t("e", "enter").i("r", rank).str());
        bs.tree()->traversal_fmm(sc.mac / 100.,
          [&](node * a, node * c) {
            sim_log(hc::J().t("e", "c2c").i("r", rank).a("k", digits(a->key().value())).a("q", digits(c->key().value())).i("rr", down(a->radius() + c->radius())).i("dd", up(dist(a->coordinates(), c->coordinates()))).str());
          },
          [&](node * a, entity_t * c) {
            sim_log(hc::J().t("e", "p2c").i("r", rank).a("k", digits(a->key().value())).i("id", c->id()).i("rr", down(a->radius())).i("dd", up(dist(a->coordinates(), c->coordinates()))).str());
          },
          [&](std::vector<entity_t *> & subs, node * nd, std::vector<entity_t *> & nb) {
            std::vector<int> a, c;
            for(auto * e : subs) a.push_back((int)e->id());
            for(auto * e : nb) c.push_back((int)e->id());
            hc::J j;
            j.t("e", "p2p").i("r", rank).a("ids", a).a("nb", c);
            if(nd) {
              double d = 1e5;
              for(auto * e : subs) d = std::min(d, dist(nd->coordinates(), e->coordinates()));
              j.raw("q", "[" + vv(digits(nd->key().value())) + "]").i("rr", down(nd->radius())).i("dd", up(d));
            }
            else j.raw("q", "[]").i("rr", 0).i("dd", 1);
            sim_log(j.str());
          },
          [&](node * nd, std::vector<entity_t *> & subs) {
            std::vector<int> a;
            for(auto * e : subs) a.push_back((int)e->id());
            sim_log(hc::J().t("e", "c2p").i("r", rank).a("k", digits(nd->key().value())).a("ids", a).str());
          });
        if(sc.mode & 32) sim_log(hc::J().t("e", "leave").i("r", rank).str());
        sim_log(hc::J().t("e", "fmmdone").i("r", rank).str());
        MPI_Barrier(MPI_COMM_WORLD);
        if(sc.mode & 2) dump_tree(bs, rank, "tree2");
        MPI_Barrier(MPI_COMM_WORLD);
      }
      {
        std::vector<int> ids;
        bs.apply_all([&](body & p) { ids.push_back((int)p.id()); });
        sim_log(hc::J().t("e", "all").i("r", rank).a("ids", ids).i("nloc", bs.getNLocalBodies()).i("nb", bs.nbodies()).str());
        MPI_Barrier(MPI_COMM_WORLD);
      }
      if(round < sc.rounds) {
        // owners change values, then refresh the remote copies
        std::vector<int> ids, h, m;
        bs.apply_all([&](body & p) {
          long id = p.id();
          p.setDensity(p.getDensity() + 1.);
          p.set_radius(p.radius() + 2. * ((id + round) % 3) - 2. * (round % 2 && p.radius() > 3));
          p.set_mass(p.mass() + (id + round) % 2);
          ids.push_back(id);
          h.push_back(hc::asint(p.radius()));
          m.push_back(hc::asint(p.mass()));
        });
        sim_log(hc::J().t("e", "upd").i("r", rank).a("ids", ids).a("h", h).a("m", m).str());
        MPI_Barrier(MPI_COMM_WORLD);
        bs.reset_ghosts();
        {
          std::vector<int> oid, oh, om, ov;
          std::string xs = "[";
          for(auto & e : bs.getLocalbodies()) {
            oid.push_back(e.id());
            oh.push_back(hc::asint(e.radius()));
            om.push_back(hc::asint(e.mass()));
            ov.push_back(hc::asint(e.getDensity()) - 64 * (int)e.id());
            xs += (xs.size() > 1 ? "," : "") + vv(ipos(e));
          }
          sim_log(hc::J().t("e", "reset").i("r", rank).a("ids", oid).a("h", oh).a("m", om).a("ver", ov).raw("x", xs + "]").str());
        }
        MPI_Barrier(MPI_COMM_WORLD);
        if(sc.mode & 1) dump_tree(bs, rank, "tree");
        MPI_Barrier(MPI_COMM_WORLD);
      }
    }
  }
}

int main(int argc, char ** argv) {
  int timeout = 20;
  if(argc > 1) timeout = atoi(argv[1]);
  std::string line;
  Sc sc;
  std::vector<Sc> all;
  while(std::getline(std::cin, line)) {
    std::istringstream is(line);
    std::string w;
    is >> w;
    if(w == "scenario") {
      sc = Sc();
      is >> sc.name >> sc.nr >> sc.seed >> sc.policy >> sc.rdv >> sc.mode >> sc.mac >> sc.rounds >> sc.iters;
    }
    else if(w == "p") {
      P p;
      is >> p.id >> p.rank;
      for(size_t d = 0; d < gdimension; ++d) is >> p.x[d];
      is >> p.h >> p.m;
      sc.ps.push_back(p);
    }
    else if(w == "q") {
      Q q;
      is >> q.it >> q.p.id;
      for(size_t d = 0; d < gdimension; ++d) is >> q.p.x[d];
      is >> q.p.h;
      sc.qs.push_back(q);
    }
    else if(w == "end")
      all.push_back(sc);
  }
  for(auto & s : all) {
    if(sim_tired()) break;
    SimConfig c;
    c.nranks = s.nr;
    c.seed = s.seed;
    c.policy = s.policy;
    c.rendezvous = s.rdv;
    c.trace = s.mode & 32;
    c.compute_timeout_s = timeout;
    c.quiet = getenv("SIM_VERBOSE") == nullptr;
    auto r = sim_run(c, [&](int rank) { run_rank(s, rank); });
    printf("%s\n", hc::J().t("e", "scenario").t("name", s.name).i("dim", gdimension).i("n", s.ps.size()).i("nr", s.nr).i("mac", s.mac).i("mode", s.mode).i("rounds", s.rounds).i("iters", s.iters).str().c_str());
    if(c.trace)
      for(auto & e : r.events) {
        if(e.kind == "log") printf("%s\n", e.text.c_str());
        else if(e.kind == "send" || e.kind == "match")
          printf("%s\n", hc::J().t("e", e.kind).i("r", e.rank).i("peer", e.peer).i("tag", e.tag).i("len", e.len).i("mid", e.id).str().c_str());
        else printf("%s\n", hc::J().t("e", e.kind).t("c", e.text).str().c_str());
      }
    else
      for(auto & l : r.logs) printf("%s\n", l.c_str());
    printf("%s\n", hc::J().t("e", "finish").b("ok", r.ok).t("err", r.error).i("left", r.leftover).i("msgs", r.messages).i("steps", r.steps).str().c_str());
    fflush(stdout);
  }
  return 0;
}
