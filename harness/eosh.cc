// C26: equations of state along adiabats.   eosh SEED TIER
#include "common.h"
#include <mpi.h>
#include <cassert>
#include <cfloat>
#include <random>
#include "params.h"
#include "tree.h"
#include "eos/eos.h"
using hc::J;

static std::mt19937_64 rng;
static double u() { return std::uniform_real_distribution<double>(0., 1.)(rng); }
static int ri(int a, int b) { return std::uniform_int_distribution<int>(a, b)(rng); }
static void put(const std::string & s) { puts(s.c_str()); }
static const double GX[5] = {0., .5384693101056831, -.5384693101056831, .9061798459386640, -.9061798459386640},
                    GW[5] = {.5688888888888889, .4786286704993665, .4786286704993665, .2369268850561891, .2369268850561891};

struct q { double P, e, c; };
// the real code, at density rho on the adiabat set up in b
static q at(body b, double rho) {
  using namespace eos;
  b.setDensity(rho);
  if(param::eos_type == param::eos_ideal) { // pressure follows from the energy
    eos::compute_internal_energy(b);
    eos::compute_pressure(b);
  }
  else {
    eos::compute_pressure(b);
    eos::compute_internal_energy(b);
  }
  eos::compute_soundspeed(b);
  return {b.getPressure(), b.getInternalenergy(), b.getSoundspeed()};
}

static void walk(const char * name, param::eos_type_keyword t, int no, int steps) {
  using namespace param;
  _eos_type = t;
  int g10 = ri(0, 1) ? ri(11, 30) : 20, h10 = ri(11, 30);
  _poly_gamma = g10 / 10.;
  _poly_gamma2 = h10 / 10.;
  bool wd = t == eos_wd;
  double rc = wd ? std::pow(10., 4 + 5 * u()) : std::pow(10., 8 * u() - 4), thr = rc * (.3 + 2 * u());
  if(ri(0, 3) == 0) thr = rc * (ri(0, 1) ? 100. : .01);
  _ppt_density_thr = thr;
  eos::select();
  body b;
  b.setDensity(rc);
  double P0 = std::pow(10., 8 * u() - 4), Ye = .3 + .4 * u();
  b.setPressure(P0);
  b.setElectronfraction(Ye);
  b.setInternalenergy(-1.);
  eos::init(b);
  if(t == eos_ideal) eos::compute_internal_energy(b);
  double einit = b.getInternalenergy();
  q c0 = at(b, rc);
  // documented values
  auto ref = [&](double r) -> q {
    double g = poly_gamma, g2 = poly_gamma2;
    if(wd) {
      const double A = 6.00233181e22, B = 9.73932099e5;
      double x = std::cbrt(r * Ye / B), s = std::sqrt(1 + x * x);
      // integrals of x^4/sqrt(1+x^2) and of P/rho^2
      double I = 0;
      for(int p = 0; p < 40; ++p) for(int k = 0; k < 5; ++k) { double y = x * (p + .5 + .5 * GX[k]) / 40; I += GW[k] * x / 80 * 8 * A * y * y * y * y / std::sqrt(1 + y * y); }
      return {I, (8 * A * x * x * x * (x * x / (1 + s)) - I) / r, std::sqrt(8 * A * Ye * x * x / (3 * B * s))};
    }
    if(t == eos_ppt) {
      double K1 = rc < thr ? P0 / std::pow(rc, g) : P0 / (std::pow(rc / thr, g2) * std::pow(thr, g));
      double Pt = K1 * std::pow(thr, g);
      if(r < thr) return {K1 * std::pow(r, g), K1 * std::pow(r, g - 1) / (g - 1), std::sqrt(g * K1 * std::pow(r, g - 1))};
      double P = Pt * std::pow(r / thr, g2);
      return {P, Pt / thr / (g - 1) + Pt / thr / (g2 - 1) * (std::pow(r / thr, g2 - 1) - 1), std::sqrt(g2 * P / r)};
    }
    double P = P0 * std::pow(r / rc, g);
    return {P, P / r / (g - 1), std::sqrt(g * P / r)};
  };
  put(J().t("e", "scenario").t("name", std::string(name) + " " + std::to_string(no)).t("eos", name).i("g10", g10).i("h10", h10)
        .i("steps", steps + 1).i("init", wd ? 1000000 : hc::fix(c0.P / P0, 1e6)).i("einit", t == eos_ideal || wd ? hc::fix(einit / c0.e, 1e6) : 1000000).str());
  std::vector<double> rho;
  for(int i = 0; i < steps; ++i) rho.push_back(i ? rc * std::pow(10., 1.2 * u() - .6) : rc);
  if(t == eos_ppt && steps > 4) { rho[2] = thr * (1 - 1e-9); rho[3] = thr; rho[4] = thr * (1 + 1e-9); if(thr > 4 * rc || thr < rc / 4) rho[2] = rho[3] = rho[4] = rc * 1.1; }
  rho.push_back(rc);
  double SP = 0, SE = 0, SC = 0;
  for(double r : rho) { q v = at(b, r); SP = std::max(SP, std::fabs(v.P)); SE = std::max(SE, std::fabs(v.e)); SC = std::max(SC, std::fabs(v.c)); }
  for(size_t i = 0; i < rho.size(); ++i) {
    double pdv = 0, c2 = 0;
    if(i) {
      double l0 = std::log(rho[i - 1]), l1 = std::log(rho[i]), cut[3] = {l0, l0, l1};
      double lt = std::log(thr);
      if(t == eos_ppt && (l0 - lt) * (l1 - lt) < 0) cut[1] = lt;
      for(int s = 0; s < 2; ++s)
        for(int p = 0; p < 20; ++p)
          for(int k = 0; k < 5; ++k) {
            double L = cut[s + 1] - cut[s], r = std::exp(cut[s] + L * (p + .5 + .5 * GX[k]) / 20), w = GW[k] * L / 40;
            q v = at(b, r);
            pdv += w * v.P / r;
            c2 += w * v.c * v.c * r;
          }
    }
    q v = at(b, rho[i]), z = ref(rho[i]);
    bool fin = std::isfinite(v.P) && std::isfinite(v.e) && std::isfinite(v.c) && std::isfinite(pdv) && std::isfinite(c2);
    put(J().t("e", "compress").i("lr", hc::fix(std::log(rho[i] / rc), 1e6)).b("fin", fin).b("pos", v.P > 0 && v.e > 0 && v.c > 0)
          .a("v", std::vector<long long>{hc::fix(v.P / SP, 1e7), hc::fix(v.e / SE, 1e7), hc::fix(v.c / SC, 1e7)})
          .a("r", std::vector<long long>{hc::fix(z.P / SP, 1e7), hc::fix(z.e / SE, 1e7), hc::fix(z.c / SC, 1e7)})
          .i("pdv", hc::fix(pdv / SE, 1e7)).i("dp", hc::fix(c2 / SP, 1e7)).str());
  }
  put(J().t("e", "end").str());
}

// pressure from density and energy, in integers: P = (gamma - 1) rho u
static void ideal(int no) {
  param::_eos_type = param::eos_ideal;
  int g10 = ri(11, 30);
  param::_poly_gamma = g10 / 10.;
  eos::select();
  put(J().t("e", "scenario").t("name", "law " + std::to_string(no)).t("eos", "ideal").i("g10", g10).i("steps", 0).i("init", 1000000).i("einit", 1000000).str());
  for(int i = 0; i < 20; ++i) {
    int r = ri(1, 1000), e = ri(0, 1000);
    body b;
    b.setDensity(r / 10.);
    b.setInternalenergy(e / 10.);
    b.setAdiabatic(u() * 100);
    eos::compute_pressure(b);
    eos::compute_soundspeed(b);
    double P = b.getPressure(), c = b.getSoundspeed();
    bool kept = b.getDensity() == r / 10. && b.getInternalenergy() == e / 10.;
    put(J().t("e", "law").i("r", r).i("u", e).i("P", hc::asint(P, 1e3, 1e-5)).i("c2", hc::asint(c * c, 1e3, 1e-5)).b("kept", kept).str());
  }
}

int main(int argc, char ** argv) {
  rng.seed(atol(argv[1]));
  bool th = argc > 2 && !strcmp(argv[2], "thorough");
  int n = th ? 400 : 25, no = 0;
  for(int i = 0; i < n; ++i) {
    walk("ideal", param::eos_ideal, no++, 12);
    walk("polytropic", param::eos_polytropic, no++, 12);
    walk("ppt", param::eos_ppt, no++, 12);
    walk("wd", param::eos_wd, no++, 12);
    ideal(no++);
  }
  return 0;
}
