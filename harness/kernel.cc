// C24: smoothing kernels, swept from the origin outwards.   kernel SEED TIER
#include "common.h"
#include <mpi.h>
#include <cassert>
#include <cfloat>
#include <random>
#include "params.h"
#include "tree.h"
#include "kernels.h"
using hc::J;

static std::mt19937_64 rng;
static double u() { return std::uniform_real_distribution<double>(0., 1.)(rng); }
static void put(const std::string & s) { puts(s.c_str()); }

static void one(param::sph_kernel_keyword k, const char * name, double idx, const char * tag) {
  param::_sph_kernel = k;
  param::_sph_sinc_index = idx;
  kernels::kernel_width = -1.;
  kernels::select();
  const int D = gdimension;
  double hs[3] = {1., 0.3 + 2. * u(), std::pow(10., 4. * u() - 2.)};
  const int M = 100;
  put(J().t("e", "scenario").t("name", std::string(name) + " " + tag + " " + std::to_string(D)).t("kernel", name)
        .i("dim", D).i("M", M).i("width10", hc::fix(kernels::kernel_width, 10)).str());
  auto W = [&](double q, double h) { return kernels::sph_kernel_function(q * h, h) * std::pow(h, D); };
  for(int i = 1; i <= M; ++i) {
    double q = (i - .5) / M;
    const double eps = 1e-5;
    std::vector<long long> w, g, dw, per, odd;
    for(double h : hs) {
      w.push_back(hc::fix(W(q, h), 1e5));
      dw.push_back(hc::fix((W(q + eps, h) - W(q - eps, h)) / (2 * eps), 1e5));
      // gradient in a random direction
      point_t n, x;
      double nn = 0;
      for(int d = 0; d < D; ++d) { n[d] = u() - .5; nn += n[d] * n[d]; }
      for(int d = 0; d < D; ++d) { n[d] /= std::sqrt(nn); x[d] = n[d] * q * h; }
      point_t gr = kernels::sph_kernel_gradient(x, h);
      point_t xm = -1. * x;
      point_t gm = kernels::sph_kernel_gradient(xm, h);
      double s = std::pow(h, D + 1), rad = 0, p = 0, o = 0;
      for(int d = 0; d < D; ++d) rad += gr[d] * n[d] * s;
      for(int d = 0; d < D; ++d) { p = std::max(p, std::fabs(gr[d] * s - rad * n[d])); o = std::max(o, std::fabs(gr[d] + gm[d]) * s); }
      g.push_back(hc::fix(rad, 1e5));
      per.push_back(hc::fix(p, 1e5));
      odd.push_back(hc::fix(o, 1e5));
    }
    put(J().t("e", "shell").i("i", i).a("w", w).a("g", g).a("dw", dw).a("per", per).a("odd", odd).str());
  }
  // origin, edge and beyond
  for(double h : hs) {
    point_t z = 0.;
    point_t g0 = kernels::sph_kernel_gradient(z, h);
    std::vector<long long> o, out;
    bool fin = true, zero = true;
    for(int d = 0; d < D; ++d) { fin = fin && std::isfinite(g0[d]); o.push_back(hc::fix(g0[d] * std::pow(h, D + 1), 1e5)); }
    for(double q : {1. + 1e-9, 1.0001, 1.01, 1.3, 1.5, 1.9, 2., 2.5, 2.999, 3., 3.7, 10., 1000.}) {
      double v = kernels::sph_kernel_function(q * h, h);
      if(v != 0.) zero = false;
      point_t x = 0., g;
      x[(int)(u() * D)] = (u() < .5 ? -1 : 1) * q * h;
      g = kernels::sph_kernel_gradient(x, h);
      for(int d = 0; d < D; ++d) if(g[d] != 0.) zero = false;
    }
    // close to the origin the gradient grows in proportion to the separation
    std::vector<long long> slope, near;
    for(double q : {1e-3, 3e-4, 1e-4, 6e-5, 3e-5, 1e-5, 1e-6, 1e-7, 1e-9, 1e-12}) {
      point_t n = 0., x;
      n[(int)(u() * D)] = u() < .5 ? -1. : 1.;
      x = (q * h) * n;
      point_t gr = kernels::sph_kernel_gradient(x, h);
      double rad = 0;
      for(int d = 0; d < D; ++d) rad += gr[d] * n[d];
      slope.push_back(hc::fix(rad * std::pow(h, D + 1) / q, 1e4));
      near.push_back(hc::fix(W(q, h), 1e5));
    }
    double dd = 2. * (W(2e-3, h) - W(0., h)) / 4e-6;
    double w0 = W(0., h), w1 = W(1e-4, h);
    // tiny separations stay finite
    point_t t = 0.;
    t[0] = 1e-30 * h;
    point_t gt = kernels::sph_kernel_gradient(t, h);
    for(int d = 0; d < D; ++d) fin = fin && std::isfinite(gt[d]) && std::fabs(gt[d] * std::pow(h, D + 1)) < 1.;
    put(J().t("e", "edge").b("zero", zero).b("fin", fin).a("g0", o).i("w0", hc::fix(w0, 1e5)).i("w1", hc::fix(w1, 1e5)).a("slope", slope).a("near", near).i("curv", hc::fix(dd, 1e4)).i("wh", hc::fix(W(1., h), 1e5)).i("first", hc::fix(W(.5 / M, h), 1e5) - 1).str());
  }
  put(J().t("e", "sweepdone").str());
}
int main(int argc, char ** argv) {
  rng.seed(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
  using namespace param;
  const bool deep = argc > 2 && std::string(argv[2]) == "thorough";
  const int R = deep ? 12 : 2;
  for(int r = 0; r < R; ++r) {
    std::string t = std::to_string(r);
    const char * c = t.c_str();
    one(cubic_spline, "cubic_spline", 4., c);
    one(quintic_spline, "quintic_spline", 4., c);
    one(wendland_c2, "wendland_c2", 4., c);
    one(wendland_c4, "wendland_c4", 4., c);
    one(wendland_c6, "wendland_c6", 4., c);
    one(gaussian, "gaussian", 4., c);
    one(super_gaussian, "super_gaussian", 4., c);
  }
  for(int i = 3; i <= 12; ++i) one(sinc_ker, "sinc_ker", i, std::to_string(i).c_str());
  for(int r = 0; r < R; ++r) { double x = 3. + 9. * u(); one(sinc_ker, "sinc_ker", x, std::to_string(x).c_str()); }
}
