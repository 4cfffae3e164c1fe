// C27: radial density profiles.   profile SEED TIER DIR
#include "common.h"
#include <mpi.h>
#include <cassert>
#include <cfloat>
#include <fstream>
#include <random>
#include <array>
#include "params.h"
#include "tree.h"
#include "density_profiles.h"
using hc::J;

static std::mt19937_64 rng;
static double u() { return std::uniform_real_distribution<double>(0., 1.)(rng); }
static int ri(int a, int b) { return std::uniform_int_distribution<int>(a, b)(rng); }
static void put(const std::string & s) { puts(s.c_str()); }
static const double GX[5] = {0., .5384693101056831, -.5384693101056831, .9061798459386640, -.9061798459386640},
                    GW[5] = {.5688888888888889, .4786286704993665, .4786286704993665, .2369268850561891, .2369268850561891};
static const double S = gdimension == 1 ? 2. : gdimension == 2 ? 2. * M_PI : 4. * M_PI;
static double area(double r) { return S * std::pow(r, gdimension - 1); }

struct q { double rho, m, s; };
static q real(double r) {
  using namespace density_profiles;
  return {spherical_density_profile(r), spherical_mass_profile(r), spherical_drho_dr(r)};
}
// a - b r^2 inside radius R with mass M
struct poly {
  double a, b, k; // a (1 - b r^2 - k r^3)
  q at(double r) const {
    double d = gdimension;
    return {a * (1 - b * r * r - k * r * r * r), a * S * std::pow(r, d) * (1 / d - b * r * r / (d + 2) - k * r * r * r / (d + 3)), -a * (2 * b * r + 3 * k * r * r)};
  }
};

static void walk(int no, int steps, const std::string & dir) {
  using namespace param;
  int kind = no % 4;
  static const char * names[] = {"constant", "parabolic", "mesa", "from file"};
  std::string nm = names[kind];
  if(ri(0, 3) == 0) for(auto & c : nm) if(ri(0, 1)) c = toupper(c);
  strcpy(_density_profile, nm.c_str());
  double qq = .05 + .9 * u(), rmax = 1.;
  _mesa_rim_width = qq;
  poly t{0, 0, 0};
  std::vector<double> grid;
  double rin = 0;
  if(kind == 3) {
    std::string f = dir + "/profile_" + std::to_string(no) + ".dat";
    t.a = std::pow(10., 6 * u() - 3); t.b = u(); t.k = (1 - t.b) * u() * .9;
    int n = ri(300, 500);
    rmax = ri(0, 1) ? 1. : .5 + u();
    if(rmax > 1) { t.b /= rmax * rmax; t.k /= rmax * rmax * rmax; }
    for(int i = 0; i < n; ++i) grid.push_back(rmax * (i == 0 ? 0. : i == n - 1 ? 1. : (i + .4 * (u() - .5)) / (n - 1.)));
    std::ofstream o(f);
    if(ri(0, 1)) o << "# 1:r 2:rho 3:m 4:drho/dr\n";
    o.precision(17);
    for(int i = 0; i < n; ++i) {
      q v = t.at(grid[i]);
      if(i == n / 2 && ri(0, 1)) o << "\n# half way\n   \n  # indented\n";
      if(ri(0, 1)) o << "  ";
      o << grid[i] << "   " << v.rho << " " << v.m << "  " << v.s << "\n";
    }
    o.close();
    strcpy(_input_density_file, f.c_str());
  }
  density_profiles::select();
  auto ref = [&](double r) -> q {
    if(kind == 3) return r > rmax * (1 + 1e-9) ? q{0, 0, 0} : t.at(r);
    if(kind < 2) { poly p{1, kind ? 1. : 0., 0}; p.a = 1 / p.at(1).m; return p.at(r); }
    double r0 = 1 - qq, M = 0;
    auto f = [&](double x) { return x < r0 ? 1. : x > 1 ? 0. : 1 - (x - r0) * (x - r0) / qq / qq; };
    auto I = [&](double x) {
      double s = 0, c[3] = {0, std::min(x, r0), x};
      for(int h = 0; h < 2; ++h) for(int k = 0; k < 5; ++k) { double L = c[h + 1] - c[h], y = c[h] + L * (.5 + .5 * GX[k]); s += GW[k] * L / 2 * area(y) * f(y); }
      return s;
    };
    M = I(1.);
    return {f(r) / M, I(r) / M, r > r0 ? -2 * (r - r0) / qq / qq / M : 0.};
  };
  double r0 = 1 - qq;
  std::vector<double> rs{rin};
  for(int i = 1; i < steps; ++i) {
    double r = rmax * u();
    if(ri(0, 4) == 0) r = rmax * std::pow(u(), 4);
    if(ri(0, 4) == 0) r = rmax * (1 - .9 * std::pow(u(), 4)) * .9998;
    if(kind == 3 && ri(0, 2) == 0) r = grid[ri(0, grid.size() - 1)];
    if(kind == 2) { if(ri(0, 4) == 0) r = std::min(.9998, r0 + .02 * (u() - .5)); r = std::min(r, .9998); }
    rs.push_back(std::max(0., r));
  }
  rs.push_back(rmax);
  double SR = ref(0.).rho, SM = ref(rmax).m, SS = 0;
  for(double r : rs) SS = std::max(SS, std::fabs(ref(r).s));
  if(SS == 0) SS = SR;
  put(J().t("e", "scenario").t("name", std::string(names[kind]) + " " + std::to_string(gdimension) + "d " + std::to_string(no)).t("profile", names[kind]).i("dim", gdimension).i("steps", steps + 1)
        .b("unit", kind < 3).i("mass", hc::fix(real(rmax).m / SM, 1e7)).i("out", kind == 3 ? hc::fix((std::fabs(real(rmax * 1.01).rho) + std::fabs(real(rmax * 1.01).m) + std::fabs(real(rmax * 1.01).s)) / SR, 1e7) : 0).str());
  double was = 0;
  for(size_t i = 0; i < rs.size(); ++i) {
    double dm = 0, dr = 0, r = rs[i];
    if(i) {
      double c[3] = {was, was, r};
      if(kind == 2 && (was - r0) * (r - r0) < 0) c[1] = r0;
      for(int h = 0; h < 2; ++h)
        for(int p = 0; p < 40; ++p)
          for(int k = 0; k < 5; ++k) {
            double L = c[h + 1] - c[h], y = c[h] + L * (p + .5 + .5 * GX[k]) / 40, w = GW[k] * L / 80;
            q v = real(y);
            dm += w * area(y) * v.rho;
            dr += w * v.s;
          }
    }
    q v = real(r), z = ref(r);
    // the outermost ten-thousandth of the flat-topped profile is cut off
    bool rim = kind == 2 && r > .9999;
    if(rim) { v.rho = z.rho; v.s = z.s; dr = NAN; }
    put(J().t("e", "shell").i("r", hc::fix(r, 1e7)).b("fin", std::isfinite(v.rho) && std::isfinite(v.m) && std::isfinite(v.s)).b("pos", v.rho >= -1e-7 * SR && v.m >= -1e-7 * SM && v.s <= 1e-6 * SS)
          .b("rim", rim).a("v", std::vector<long long>{hc::fix(v.rho / SR, 1e7), hc::fix(v.m / SM, 1e7), hc::fix(v.s / SS, 1e7)})
          .a("x", std::vector<long long>{hc::fix(z.rho / SR, 1e7), hc::fix(z.m / SM, 1e7), hc::fix(z.s / SS, 1e7)})
          .i("dm", hc::fix(dm / SM, 1e7)).i("dr", rim ? 0 : hc::fix(dr / SR, 1e7)).str());
    was = r;
  }
  put(J().t("e", "end").str());
}

// a coarse table of anything: interpolation by the cubic through the four nearest rows
static void table(int no, int steps, const std::string & dir) {
  using namespace param;
  std::string f = dir + "/table_" + std::to_string(no) + ".dat";
  int n = ri(4, 14);
  std::vector<std::array<double, 4>> T(n);
  double x = ri(0, 1) ? 0. : u();
  std::ofstream o(f);
  o.precision(17);
  int rem = ri(0, n);
  for(int i = 0; i < n; ++i) {
    T[i] = {x, (float)u(), (float)u(), (float)(-u())};
    x += .05 + u();
    if(i == rem) o << (ri(0, 1) ? "# remark\n" : "   # remark\n\n");
    o << T[i][0] << (ri(0, 1) ? " " : "   ") << T[i][1] << "  " << T[i][2] << " " << T[i][3] << (ri(0, 1) ? "  \n" : "\n");
  }
  o.close();
  strcpy(_density_profile, "from file");
  strcpy(_input_density_file, f.c_str());
  density_profiles::select();
  put(J().t("e", "scenario").t("name", "table " + std::to_string(gdimension) + "d " + std::to_string(no)).t("profile", "table").i("dim", gdimension).i("steps", steps)
        .b("unit", false).i("mass", 0).i("out", 0).str());
  for(int k = 0; k < steps; ++k) {
    int i = ri(0, n - 1);
    bool node = ri(0, 1);
    double r = T[i][0];
    if(!node) {
      i = ri(0, n - 2);
      r = T[i][0] + (.02 + .96 * u()) * (T[i + 1][0] - T[i][0]);
      if(ri(0, 5) == 0) { i = -1; r = ri(0, 1) ? T[n - 1][0] + .01 + u() : T[0][0] * (.98 * u()); if(r == 0 && T[0][0] == 0) r = T[n - 1][0] + 1.; }
    }
    std::array<double, 4> w{};
    if(node) w = T[i];
    else if(i >= 0) {
      int a = std::max(0, std::min(i - 1, n - 4));
      for(int c = 1; c < 4; ++c)
        for(int j = a; j < a + 4; ++j) {
          double p = T[j][c];
          for(int l = a; l < a + 4; ++l) if(l != j) p *= (r - T[l][0]) / (T[j][0] - T[l][0]);
          w[c] += p;
        }
    }
    q v = real(r);
    put(J().t("e", "look").b("node", node).b("in", i >= 0).a("v", std::vector<long long>{hc::fix(v.rho, 1e5), hc::fix(v.m, 1e5), hc::fix(v.s, 1e5)})
          .a("x", std::vector<long long>{hc::fix(w[1], 1e5), hc::fix(w[2], 1e5), hc::fix(w[3], 1e5)}).str());
  }
  put(J().t("e", "end").str());
}

int main(int argc, char ** argv) {
  MPI_Init(&argc, &argv);
  rng.seed(std::stoull(argv[1]) * 7919 + gdimension);
  bool deep = std::string(argv[2]) == "thorough";
  // the reader reports each table on standard output
  std::cout.setstate(std::ios_base::failbit);
  for(int i = 0; i < (deep ? 1200 : 80); ++i) walk(i, deep ? 60 : 40, argv[3]);
  for(int i = 0; i < (deep ? 600 : 40); ++i) table(i, 25, argv[3]);
  MPI_Finalize();
}
