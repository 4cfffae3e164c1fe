// C30: the geometric predicates and the search by radius.   geom SEED TIER
// stdout: NDJSON events; all coordinates are integers times a power of two.
#include "simmpi.h"
#include "common.h"
#include <mpi.h>
#include <algorithm>
#include <array>
#include <cassert>
#include <random>
#include <set>
#include "default_physics.h"
#include "tree.h"

using hc::J;
static constexpr int D = gdimension;
using G = flecsi::topology::tree_geometry<double, gdimension>;
using L = std::array<long, D>;
static std::mt19937_64 rng;
static long rnd(long a, long b) { return a + (long)(rng() % (uint64_t)(b - a + 1)); }
static point_t pt(const L & a, double s) {
  point_t p;
  for(int d = 0; d < D; ++d) p[d] = a[d] * s;
  return p;
}
struct Case { L p, q, lo, hi, lo2, hi2; long r1, r2, ang; };

static std::string bits(const Case & c, double s) {
  point_t p = pt(c.p, s), q = pt(c.q, s), lo = pt(c.lo, s), hi = pt(c.hi, s), lo2 = pt(c.lo2, s), hi2 = pt(c.hi2, s);
  double r1 = c.r1 * s, r2 = c.r2 * s, a = c.ang / 8.;
  J j;
  j.a("p", c.p).a("q", c.q).a("lo", c.lo).a("hi", c.hi).a("lo2", c.lo2).a("hi2", c.hi2).i("r1", c.r1).i("r2", c.r2).i("ang", c.ang);
  j.i("d2", hc::asint(G::distance2(p, q), 1. / (s * s)));
  j.b("wd2", G::within_distance2(p, q, r1));
  j.b("wd2s", G::within_distance2(q, p, r1));
  j.b("win", G::within(p, q, r1, r2));
  j.b("wsq", G::within_square(p, q, r1, r2));
  j.b("wsqs", G::within_square(q, p, r2, r1));
  j.b("inbox", G::within_box(lo, hi, p, r1));
  j.b("bb", G::intersects_box_box(lo, hi, lo2, hi2));
  j.b("bbs", G::intersects_box_box(lo2, hi2, lo, hi));
  j.b("ss", G::intersects_sphere_sphere(p, r1, q, r2));
  j.b("sss", G::intersects_sphere_sphere(q, r2, p, r1));
  j.b("sb", G::intersects_sphere_box(lo, hi, p, r1));
  j.b("mac", G::mac(p, r1, q, r2, a));
  j.b("bmac", G::box_MAC(p, q, lo, hi, a));
  return j.str();
}

static void predicates(const std::string & name, int n, long span, long rad, int shift, bool all) {
  sim_log(J().t("e", "scenario").t("name", name).i("dim", D).str());
  double s = std::ldexp(1., shift);
  std::string o = "[";
  int in = 0;
  auto put = [&](const Case & c) {
    o += (o.size() > 1 ? "," : "") + bits(c, s);
    if(++in == 40) { sim_log(J().t("e", "cases").raw("c", o + "]").str()); o = "["; in = 0; }
  };
  if(all) { // every pair of points of a small grid, every box, every radius
    long m = span + 1, np = 1;
    for(int d = 0; d < D; ++d) np *= m;
    auto un = [&](long v) { L x; for(int d = 0; d < D; ++d) { x[d] = v % m; v /= m; } return x; };
    for(long a = 0; a < np; ++a)
      for(long b = 0; b < np; ++b) {
        Case c;
        c.p = un(a); c.q = un(b);
        for(int d = 0; d < D; ++d) {
          long u = rnd(0, span), v = rnd(0, span);
          c.lo[d] = std::min(u, v); c.hi[d] = std::max(u, v);
          u = rnd(0, span); v = rnd(0, span);
          c.lo2[d] = std::min(u, v); c.hi2[d] = std::max(u, v);
        }
        c.r1 = rnd(0, rad); c.r2 = rnd(0, rad); c.ang = rnd(0, 16);
        put(c);
      }
  }
  for(int i = 0; i < n; ++i) {
    Case c;
    for(int d = 0; d < D; ++d) {
      c.p[d] = rnd(-span, span);
      c.q[d] = rnd(0, 3) ? rnd(-span, span) : c.p[d] + rnd(-2, 2);
      long u = rnd(-span, span), v = rnd(-span, span);
      c.lo[d] = std::min(u, v); c.hi[d] = std::max(u, v);
      if(!rnd(0, 3)) c.p[d] = rnd(0, 1) ? c.lo[d] : c.hi[d];
      u = rnd(0, 2) ? rnd(-span, span) : rnd(0, 1) ? c.lo[d] : c.hi[d];
      v = rnd(0, 2) ? rnd(-span, span) : rnd(0, 1) ? c.lo[d] : c.hi[d];
      c.lo2[d] = std::min(u, v); c.hi2[d] = std::max(u, v);
    }
    // radii near the distance, so that both answers occur on either side of it
    double dist = 0;
    for(int d = 0; d < D; ++d) dist += double(c.p[d] - c.q[d]) * (c.p[d] - c.q[d]);
    dist = std::sqrt(dist);
    c.r1 = rnd(0, 1) ? rnd(0, rad) : std::max<long>(0, std::lround(dist) + rnd(-1, 1));
    c.r2 = rnd(0, 1) ? rnd(0, rad) : std::max<long>(0, std::lround(dist) - c.r1 + rnd(-1, 1));
    c.ang = rnd(0, 16);
    if(rnd(0, 1)) { // sphere touching the box or nearly so
      long e = rnd(0, D - 1), w = rnd(0, rad);
      for(int d = 0; d < D; ++d) c.p[d] = rnd(c.lo[d], c.hi[d]);
      c.p[e] = rnd(0, 1) ? c.lo[e] - w : c.hi[e] + w;
      if(rnd(0, 1)) { long f = rnd(0, D - 1); if(f != e) c.p[f] = c.hi[f] + rnd(0, 3); }
      c.r1 = std::max<long>(0, w + rnd(-1, 1));
    }
    put(c);
  }
  if(in) sim_log(J().t("e", "cases").raw("c", o + "]").str());
}

template<class T>
static void query(T & t, const L & c, long r, double s) {
  auto ns = t.find_in_radius(pt(c, s), r * s, G::within);
  std::vector<int> ids;
  for(auto * e : ns) ids.push_back((int)e->id());
  std::sort(ids.begin(), ids.end());
  sim_log(J().t("e", "find").a("c", c).i("rad", r).a("ids", ids).str());
}

static void search(const std::string & name, int n, long span, long hmax, int shift, int style, int rounds, int nq) {
  sim_log(J().t("e", "scenario").t("name", name).i("dim", D).str());
  double s = std::ldexp(1., shift);
  tree_topology_t t;
  L l0, l1;
  for(int d = 0; d < D; ++d) { l0[d] = 0; l1[d] = span; }
  range_t range = {pt(l0, s), pt(l1, s)};
  t.set_range(range);
  std::set<L> used;
  for(int i = 0; i < n; ++i) {
    L x;
    int guard = 0;
    do {
      for(int d = 0; d < D; ++d)
        x[d] = style == 1 ? rnd(0, std::min<long>(span, 4 + guard / 20))      // clustered in a corner
             : style == 2 ? (d ? span / 2 + rnd(0, guard / 20) : rnd(0, span)) // on a line
             : style == 3 ? (rnd(0, 1) ? rnd(0, span / 8) : span - rnd(0, span / 8))
                          : rnd(0, span);
      for(int d = 0; d < D; ++d) x[d] = std::min(x[d], span);
    } while(!used.insert(x).second && ++guard < 4000);
    if(guard >= 4000) break;
    t.entities().push_back(body{});
    auto & e = t.entities().back();
    e.set_coordinates(pt(x, s));
    e.set_id(i);
    e.set_mass(1 << rnd(0, 3));
    e.set_radius(s * (rnd(0, 5) ? rnd(1, hmax) : rnd(1, 4 * hmax)));
  }
  for(int k = 0; k < rounds; ++k) {
    if(k) { // move or change some, build again
      for(auto & e : t.entities()) {
        if(!rnd(0, 2)) e.set_radius(s * rnd(1, 2 * hmax));
        if(!rnd(0, 2)) {
          L x, o;
          for(int d = 0; d < D; ++d) { o[d] = std::lround(e.coordinates()[d] / s); x[d] = rnd(0, span); }
          if(used.insert(x).second) { used.erase(o); e.set_coordinates(pt(x, s)); }
        }
      }
    }
    t.compute_keys();
    std::sort(t.entities().begin(), t.entities().end(), [](auto & a, auto & b) {
      return a.key() < b.key() || (a.key() == b.key() && a.id() < b.id());
    });
    if(k) t.reset_ghosts(physics::compute_cofm);
    else t.build_tree(physics::compute_cofm);
    std::string ps = "[";
    for(auto & e : t.entities()) {
      L x;
      for(int d = 0; d < D; ++d) x[d] = hc::asint(e.coordinates()[d], 1. / s);
      ps += (ps.size() > 1 ? "," : "") + J().i("id", e.id()).a("x", x).i("h", hc::asint(e.radius(), 1. / s)).str();
    }
    sim_log(J().t("e", "tree").raw("ps", ps + "]").str());
    for(int q = 0; q < nq; ++q) {
      L c;
      auto & e = t.entities()[rnd(0, t.entities().size() - 1)];
      int kind = rnd(0, 3);
      long r = rnd(0, 3) ? rnd(0, 2 * hmax) : rnd(0, span);
      for(int d = 0; d < D; ++d)
        c[d] = kind == 0 ? std::lround(e.coordinates()[d] / s)
             : kind == 1 ? std::lround(e.coordinates()[d] / s) + rnd(-2, 2)
             : kind == 2 ? rnd(-span / 2, span + span / 2) : rnd(0, span);
      query(t, c, r, s);
      if(!rnd(0, 9)) // everything, nothing
        query(t, c, rnd(0, 1) ? 4 * span : 0, s);
    }
  }
}

int main(int argc, char ** argv) {
  long seed = argc > 1 ? atol(argv[1]) : 1;
  bool th = argc > 2 && std::string(argv[2]) == "thorough";
  rng.seed(seed * 977 + D);
  std::vector<std::function<void()>> jobs;
  std::string pre = std::to_string(D) + "d ";
  jobs.push_back([&] { predicates(pre + "grid", 0, D == 1 ? 12 : D == 2 ? 4 : 2, D == 1 ? 14 : D == 2 ? 6 : 4, 0, true); });
  for(int i = 0; i < (th ? 24 : 6); ++i)
    jobs.push_back([&, i] { predicates(pre + "random " + std::to_string(i), th ? 2000 : 400, i % 3 ? (i % 3 == 1 ? 10 : 60) : 3, i % 3 ? (i % 3 == 1 ? 12 : 70) : 5, (int)(i % 2 ? rnd(-25, -20) : rnd(-15, 25)), false); });
  for(int i = 0; i < (th ? 120 : 24); ++i)
    jobs.push_back([&, i] {
      int n = i % 6 == 0 ? (int)rnd(1, 3) : (int)rnd(4, th ? 200 : 90);
      search(pre + "search " + std::to_string(i), n, D == 1 ? 512 : rnd(0, 1) ? 64 : 256, rnd(1, 24), (int)rnd(-20, 20), i % 4, 1 + i % 3, th ? 60 : 25);
    });
  for(auto & f : jobs) {
    SimConfig c;
    c.nranks = 1;
    auto r = sim_run(c, [&](int) { f(); });
    for(auto & l : r.logs) printf("%s\n", l.c_str());
    printf("%s\n", J().t("e", "finish").b("ok", r.ok).t("err", r.error).str().c_str());
    if(sim_tired()) break;
  }
  return 0;
}
