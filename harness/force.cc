// C25: external potentials and accelerations along random walks, and drag.   force SEED TIER
#include "common.h"
#include <mpi.h>
#include <cassert>
#include <cfloat>
#include <fstream>
#include <memory>
#include <random>
#include <sys/wait.h>
#include <unistd.h>
#include "params.h"
#include "tree.h"
#include "eforce.h"
using hc::J;

static std::mt19937_64 rng;
static double u() { return std::uniform_real_distribution<double>(0., 1.)(rng); }
static int ri(int a, int b) { return std::uniform_int_distribution<int>(a, b)(rng); }
static void put(const std::string & s) { puts(s.c_str()); }
static const int D = gdimension;
static void str(char * dst, const std::string & s) { strncpy(dst, s.c_str(), STRING_MAXLEN); }

struct conf {
  int box100[3], n, R100, g100, gam10, poison100;
  double A, P0, rho0, q;
  std::string profile;
};
static conf c;

struct term { std::string name; external_force::potential_t p; external_force::acceleration_t a; int axis; };
static body mk(const point_t & x) { body b; b.set_coordinates(x); return b; }

static void table(const std::string & spec, std::vector<term> & ts) { // the terms named by a specification
  using namespace external_force;
  std::stringstream ss(spec);
  std::string w;
  while(std::getline(ss, w, ',')) {
    for(auto & ch : w) ch = tolower(ch);
    if(w == "gravity") ts.push_back({w, potential_gravity, acceleration_gravity, 0});
    else if(w == "spherical wall") ts.push_back({w, potential_spherical_wall, acceleration_spherical_wall, 0});
    else if(w == "spherical density support") ts.push_back({"support", potential_spherical_density_support, acceleration_spherical_density_support, 0});
    else if(w == "airfoil") ts.push_back({w, potential_airfoil, acceleration_airfoil, 0});
    else if(w == "orbit") ts.push_back({w, potential_orbit, acceleration_orbit, 0});
    else if(w == "poison") ts.push_back({w, potential_poison, nullptr, 0});
    else if(w.substr(0, 6) == "walls:")
      for(char x : w.substr(6)) {
        if(x == 'x') ts.push_back({"walls", potential_walls_x, acceleration_walls_x, 1});
        if(x == 'y') ts.push_back({"walls", potential_walls_y, acceleration_walls_y, 2});
        if(x == 'z') ts.push_back({"walls", potential_walls_z, acceleration_walls_z, 3});
      }
  }
}

static double dens(double x) { // density over central density, radius one
  if(c.profile == "constant") return 1.;
  if(c.profile == "parabolic") return x < 1 ? 1 - x * x : 0.;
  double r0 = 1 - c.q;
  return x <= r0 ? 1. : x < 1 ? 1 - (x - r0) * (x - r0) / (c.q * c.q) : 0.;
}
static double norm(const point_t & x) { double s = 0; for(int d = 0; d < D; ++d) s += x[d] * x[d]; return std::sqrt(s); }
// the airfoil: level function, in the frame of the foil
static double foil(const point_t & x, bool & in, double & lx, double & ly) {
  using namespace param;
  double al = airfoil_attack_angle / 180. * M_PI, dx = x[0] - airfoil_anchor_x, dy = (D > 1 ? x[1 % D] : 0.) - airfoil_anchor_y;
  lx = std::cos(al) * dx + std::sin(al) * dy;
  ly = std::cos(al) * dy - std::sin(al) * dx;
  double s = airfoil_size;
  in = std::fabs(ly) < 5 * airfoil_thickness && lx > -.02 * s && lx < 1.02 * s;
  double y0 = ly - airfoil_camber * std::sin(M_PI_2 * lx);
  return airfoil_thickness * airfoil_thickness * lx * lx * (s * s - lx * lx) - y0 * y0 + .002;
}
static double ref(const term & t, const point_t & x) { // the documented potential
  using namespace param;
  double R = c.R100 / 100., r = norm(x);
  auto wall = [&](double d) { return d > 0 ? c.A * std::pow(d, c.n) : 0.; };
  if(t.name == "gravity") return c.g100 / 100. * x[D > 1 ? 1 : 0];
  if(t.name == "walls") return wall(std::fabs(x[t.axis - 1]) - c.box100[t.axis - 1] / 200.);
  if(t.name == "spherical wall") return wall(r - R);
  if(t.name == "poison") return c.poison100 / 100.;
  if(t.name == "support") {
    double g = c.gam10 / 10., rho = dens(r / R);
    return wall(r - R) - (rho > 0 ? g / (g - 1) * c.P0 / c.rho0 * std::pow(rho, g - 1) : 0.);
  }
  if(t.name == "airfoil") { bool in; double lx, ly, f = foil(x, in, lx, ly); return in && f > 0 && lx < airfoil_size ? c.A * std::pow(f, c.n) : 0.; }
#if EXT_GDIMENSION == 3
  if(t.name == "orbit") {
    double m = mass_neutron_star + mass_white_dwarf, a = orbital_separation, xc = a * mass_neutron_star / m, w2 = gravitational_constant * m / (a * a * a);
    return -gravitational_constant * mass_neutron_star / std::sqrt((x[0] - a) * (x[0] - a) + x[1] * x[1] + x[2] * x[2]) -
           .5 * w2 * ((x[0] - xc) * (x[0] - xc) + x[1] * x[1]);
  }
#endif
  return NAN;
}
// the region of a point: the potential is smooth along a segment inside one
static int region(const std::vector<term> & ts, const point_t & x) {
  using namespace param;
  int g = 0;
  for(auto & t : ts) {
    if(t.name == "airfoil") { bool in; double lx, ly; foil(x, in, lx, ly); g = g * 4 + (in ? (lx > .98 * airfoil_size ? 2 : 1) : 0); }
    if(t.name == "support") { double q = norm(x) / (c.R100 / 100.); g = g * 4 + (c.profile == "constant" ? 0 : q < .97 ? 1 : q < 1.001 ? 2 : 3); }
    if(t.name == "orbit") { g = g * 4; }
  }
  return g;
}

static void scenario(const std::string & spec, const std::string & first, int steps, const std::string & tag) {
  using namespace param;
  external_force::select(first);
  external_force::select(spec);
  std::vector<term> ts;
  table(spec, ts);
  int ext = 20 + ri(0, 1) * 80; // extent of the walk around the structures, 1/100
  auto draw = [&](std::vector<int> & k) {
    point_t x;
    k.resize(D);
    for(int d = 0; d < D; ++d) {
      int lim = c.R100 + ext;
      for(auto & t : ts)
        if(t.name == "walls") lim = std::max(c.box100[d] / 2, 1) + 60;
      k[d] = ri(-lim, lim);
      if(ts.size() && ts[0].name == "airfoil" && ri(0, 2)) k[d] = d == 0 ? ri(-110, 110) : d == 1 ? ri(-25, 25) : k[d];
      if(ri(0, 9) == 0) k[d] = 0;
      x[d] = k[d] / 100.;
    }
    return x;
  };
  std::vector<int> k0, k;
  point_t x0 = draw(k0), x = x0;
  k = k0;
  struct rec { std::vector<int> k; bool jump; double phi, work; std::vector<double> tp, tr; point_t a, sum; bool fin; };
  std::vector<rec> rs;
  double big = 1e-300;
  point_t prev;
  std::vector<int> kk;
  for(int i = 0; i <= steps; ++i) {
    if(i == steps) { x = x0; kk = k0; }
    else if(i > 0) x = draw(kk);
    else kk = k0;
    rec r;
    r.k = kk;
    r.jump = i == 0;
    r.work = 0;
    r.fin = true;
    if(i) {
      int g = region(ts, prev);
      for(int j = 1; j <= 400; ++j) {
        point_t y = prev + (j / 400.) * (x - prev);
        int h = region(ts, y);
        bool near = false;
        for(auto & t : ts) {
#if EXT_GDIMENSION == 3
          if(t.name == "orbit") near = near || std::sqrt((y[0] - orbital_separation) * (y[0] - orbital_separation) + y[1] * y[1] + y[2] * y[2]) < .1;
#endif
          if(t.name == "support") near = near || h % 4 == 2;
          if(t.name == "airfoil") near = near || h % 4 == 2;
        }
        if(h != g || near) { r.jump = true; break; }
      }
      if(!r.jump) { // work: 5-point Gauss-Legendre on panels
        static const double gx[5] = {0., .5384693101056831, -.5384693101056831, .9061798459386640, -.9061798459386640},
                            gw[5] = {.5688888888888889, .4786286704993665, .4786286704993665, .2369268850561891, .2369268850561891};
        const int P = 400;
        point_t dr = x - prev;
        for(int p = 0; p < P; ++p)
          for(int q = 0; q < 5; ++q) {
            point_t y = prev + ((p + .5 + .5 * gx[q]) / P) * dr;
            point_t a = external_force::acceleration(mk(y));
            for(int d = 0; d < D; ++d) r.work += gw[q] / 2 / P * a[d] * dr[d];
          }
      }
    }
    r.phi = external_force::potential(x);
    r.a = external_force::acceleration(mk(x));
    r.sum = 0.;
    for(auto & t : ts) {
      r.tp.push_back(t.p(x));
      r.tr.push_back(ref(t, x));
      if(t.a) r.sum += t.a(mk(x));
      r.fin = r.fin && std::isfinite(r.tp.back());
    }
    r.fin = r.fin && std::isfinite(r.phi) && std::isfinite(r.work) && std::isfinite(norm(r.a));
    big = std::max({big, std::fabs(r.phi), std::fabs(r.work)});
    for(double v : r.tp) big = std::max(big, std::fabs(v));
    rs.push_back(r);
    prev = x;
  }
  const double S = 1e7 / big;
  std::string terms = "[", axes = "[";
  for(size_t i = 0; i < ts.size(); ++i) { terms += std::string(i ? "," : "") + "\"" + ts[i].name + "\""; axes += std::string(i ? "," : "") + std::to_string(ts[i].axis); }
  put(J().t("e", "scenario").t("name", spec + " " + tag + " " + std::to_string(D)).i("dim", D).raw("terms", terms + "]").raw("axes", axes + "]")
        .i("npot", external_force::vec_potentials.size()).i("nacc", external_force::vec_accelerations.size())
        .a("box", std::vector<int>(c.box100, c.box100 + 3)).i("n", c.n).i("R", c.R100).i("g", c.g100).i("poison", c.poison100).i("steps", steps + 1)
        .b("gam2", c.gam10 == 20).t("profile", c.profile).str());
  for(auto & r : rs) {
    std::vector<long long> tp, tr, own, a, s;
    double am = 1e-300;
    for(int d = 0; d < D; ++d) am = std::max(am, std::fabs(r.sum[d]));
    for(int d = 0; d < D; ++d) { a.push_back(hc::fix(r.a[d] / am, 1e6)); s.push_back(hc::fix(r.sum[d] / am, 1e6)); }
    for(size_t i = 0; i < ts.size(); ++i) {
      tp.push_back(hc::fix(r.tp[i], S));
      tr.push_back(hc::fix(r.tr[i], S));
      // in the unit in which the specification computes the value itself
      double v = r.tp[i];
      const std::string & n = ts[i].name;
      if(n == "gravity") v *= 1e4;
      if(n == "walls" || n == "spherical wall") v *= std::pow(100., c.n) / c.A;
      if(n == "poison") v *= 100.;
      if(n == "support") v *= double(c.R100) * c.R100 * c.rho0 / (2. * c.P0);
      own.push_back(hc::fix(v, 1.));
    }
    double inward = 0; // radial component of the acceleration, sign only
    for(int d = 0; d < D; ++d) inward += r.a[d] * r.k[d];
    put(J().t("e", "move").a("k", r.k).b("jump", r.jump).b("fin", r.fin).i("phi", hc::fix(r.phi, S)).i("work", hc::fix(r.work, S))
          .a("tp", tp).a("tr", tr).a("own", own).a("a", a).a("s", s).i("rad", inward > 0 ? 1 : inward < 0 ? -1 : 0).b("still", norm(r.a) == 0.).str());
  }
  put(J().t("e", "end").str());
}

static void drag(int i) {
  int b = ri(0, 50), g = ri(0, 50);
  param::_relaxation_beta = b / 100.;
  param::_relaxation_gamma = g / 100.;
  put(J().t("e", "scenario").t("name", "drag " + std::to_string(i) + " " + std::to_string(D)).i("dim", D).i("beta", b).i("gamma", g).str());
  for(int j = 0; j < 20; ++j) {
    std::vector<int> v(D);
    std::vector<long long> a;
    point_t p;
    for(int d = 0; d < D; ++d) { v[d] = ri(-50, 50); p[d] = v[d] / 10.; }
    point_t x = external_force::acceleration_drag(p);
    for(int d = 0; d < D; ++d) a.push_back(hc::asint(x[d], 1e5));
    put(J().t("e", "drag").a("v", v).a("a", a).str());
  }
}

int main(int argc, char ** argv) {
  long seed = atol(argv[1]);
  bool thorough = argc > 2 && !strcmp(argv[2], "thorough");
  std::vector<std::string> specs = {"gravity", "walls:x", "spherical wall", "poison", "gravity,walls:x", "GRAVITY,Poison,Spherical Wall", "none",
    "spherical density support", "spherical density support", "spherical density support,gravity", "poison,poison", "walls:X,gravity,poison"};
  if(D > 1) {
    for(const char * s : {"walls:xy", "walls:y", "walls:yx,gravity", "walls:xY,spherical wall", "airfoil", "airfoil,gravity", "airfoil", "spherical wall,walls:y,poison"}) specs.push_back(s);
  }
  if(D > 2)
    for(const char * s : {"walls:xyz", "walls:zyx,spherical wall,gravity", "walls:z", "orbit", "orbit", "orbit,poison", "walls:xz,spherical wall"}) specs.push_back(s);
  int reps = thorough ? 30 : 2, steps = thorough ? 24 : 10, no = 0;
  for(int rep = 0; rep < reps; ++rep)
    for(size_t s = 0; s < specs.size(); ++s, ++no) {
      fflush(stdout);
      pid_t p = fork();
      if(!p) {
        using namespace param;
        rng.seed(seed * 1000003 + no);
        std::string tag = std::to_string(no);
        for(int d = 0; d < 3; ++d) c.box100[d] = 2 * ri(10, 100);
        c.n = ri(2, 4);
        c.A = std::pow(10., 8 * u() - 2);
        c.R100 = ri(20, 150);
        c.g100 = ri(1, 2000);
        c.poison100 = ri(-100000, 100000);
        c.gam10 = ri(0, 1) ? 20 : ri(11, 30);
        c.P0 = std::pow(10., 4 * u() - 2);
        c.rho0 = std::pow(10., 4 * u() - 2);
        c.q = .1 + .8 * u();
        const char * pr[3] = {"constant", "parabolic", "mesa"};
        c.profile = pr[ri(0, 2)];
        _box_length = c.box100[0] / 100.;
        _box_width = c.box100[1] / 100.;
        _box_height = c.box100[2] / 100.;
        _extforce_wall_powerindex = c.n;
        _extforce_wall_steepness = c.A;
        _sphere_radius = c.R100 / 100.;
        _gravity_acceleration_constant = c.g100 / 100.;
        _zero_potential_poison_value = c.poison100 / 100.;
        _poly_gamma = c.gam10 / 10.;
        _pressure_initial = c.P0;
        _rho_initial = c.rho0;
        _mesa_rim_width = c.q;
        str(_density_profile, c.profile);
        _orbital_separation = .3 + u();
        _gravitational_constant = .5 + u();
        _mass_neutron_star = .2 + 2 * u();
        _mass_white_dwarf = .2 + u();
        _airfoil_size = 1. + u();
        _airfoil_thickness = .03 + .05 * u();
        _airfoil_camber = .2 * u() - .1;
        _airfoil_anchor_x = -1. + .2 * u();
        _airfoil_anchor_y = .1 * u() - .05;
        _airfoil_attack_angle = 60 * u() - 30;
        scenario(specs[s], rep % 2 ? "gravity,walls:x" : "none", steps, tag);
        fflush(stdout);
        _exit(0);
      }
      int st;
      waitpid(p, &st, 0);
      if(!WIFEXITED(st) || WEXITSTATUS(st)) {
        put(J().t("e", "scenario").t("name", specs[s] + " stopped " + std::to_string(no)).i("dim", D).str());
        put(J().t("e", "stopped").str());
      }
    }
  rng.seed(seed + 77);
  for(int i = 0; i < (thorough ? 20 : 4); ++i) drag(i);
  return 0;
}
