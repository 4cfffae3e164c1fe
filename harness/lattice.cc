// C21: particle lattices.   lattice SEED TIER
#include "common.h"
#include <mpi.h>
#include <cassert>
#include <chrono>
#include <fstream>
#include <random>
#include <sys/wait.h>
#include <unistd.h>
#include "params.h"
#include "tree.h"
#include "lattice.h"
using hc::J;

static std::mt19937_64 rng;
static double u() { return std::uniform_real_distribution<double>(0., 1.)(rng); }
static int ri(int a, int b) { return std::uniform_int_distribution<int>(a, b)(rng); }
static void put(const std::string & s) { puts(s.c_str()); }
static const int D = gdimension;
static const double CANARY = -12345.678;

// no site may be so close to an upper edge or to the sphere that rounding decides
static bool clear(int type, int dom, const int * L) {
  int mn = L[0];
  for(int d = 1; d < D; ++d) mn = std::min(mn, L[d]);
  bool flat = D == 1 || type == 0;
  double sy = flat ? 1000. : 866.025403784, sz = flat ? 1000. : 816.496580928;
  for(int Z = 0; Z == 0 || (D > 2 && Z * sz <= L[2] + 5); ++Z)
    for(int Y = 0; Y == 0 || (D > 1 && Y * sy / 3 <= L[1] + 5); ++Y)
      for(int X = 0; X * 500 <= L[0] + 5; ++X) {
        double c[3] = {X * 500., Y * sy / 3, Z * sz}, r2 = 0;
        for(int d = 0; d < D; ++d) {
          bool exact = d == 0 || flat;
          if(c[d] != 0 && !(exact && c[d] == L[d]) && std::fabs(c[d] - L[d]) < 3) return false;
          double e = c[d] - L[d] / 2.;
          r2 += e * e;
        }
        if(dom == 1 && D > 1 && std::fabs(std::sqrt(r2) - mn / 2.) < 3) return false;
      }
  return true;
}

static void one(int no, int type, bool thorough) {
  int L[3] = {1000, 1000, 1000}, dom = 0;
  bool regular = type < 3;
  do {
    dom = type >= 3 ? 1 : ri(0, 1);
    int hi = D == 1 ? 60000 : D == 2 ? 14000 : thorough ? 7500 : 5500;
    int c = ri(900, hi);
    for(int d = 0; d < D; ++d) {
      L[d] = dom && ri(0, 3) ? c : ri(900, hi);
      if(ri(0, 2) == 0 || (type == 0 && ri(0, 2))) L[d] = std::max(1, L[d] / 1000) * 1000;
      if(type >= 3) L[d] = c;
    }
  } while(regular && !clear(type, dom, L));
  if(type == 3 && ri(0, 1)) dom = 0;
  double sep = std::pow(10., 4 * u() - 2);
  point_t lo, hi;
  for(int d = 0; d < D; ++d) {
    lo[d] = ri(0, 3) ? sep * (20 * u() - 10) : 0.;
    if(ri(0, 2) == 0) lo[d] = -.5 * L[d] / 1000. * sep;
    hi[d] = lo[d] + L[d] / 1000. * sep;
  }
  param::_lattice_type = type;
  const char * prof[3] = {"constant", "parabolic", "mesa"};
  const char * pf = prof[ri(0, 2)];
  strcpy(param::_density_profile, pf);
  param::_mesa_rim_width = .15 + .7 * u();
  density_profiles::select();
  particle_lattice::select();
  // the file is read twice: the second block follows the first in the arrays
  int64_t gap = ri(0, 5), n = particle_lattice::count(type, dom, lo, hi, sep, 0), n2 = particle_lattice::count(type, dom, lo, hi, sep, gap + n);
  std::vector<int> Lv(L, L + D);
  std::vector<double> a[3];
  int64_t N = gap + std::max<int64_t>(n, 0) + std::max<int64_t>(n2, 0);
  put(J().t("e", "scenario").t("name", std::to_string(no) + " type " + std::to_string(type) + " dim " + std::to_string(D)).i("dim", D)
        .i("type", D == 1 ? 0 : D == 2 ? std::min(type, 1) : type).i("dom", D == 1 ? 0 : dom).a("L", Lv).i("announced", n).i("again", n2).i("next", gap)
        .i("shells", type == 3 ? int(L[0] / 2000.) + 1 : 0).i("rnd", type == 4 ? (long long)(std::pow(L[0] / 1000. + 1, 3)) : 0).str());
  if(n < 0 || n > 2000000 || n2 < 0 || n2 > 2000000) return;
  const int64_t PAD = 64;
  for(int k = 0; k < 3; ++k) a[k].assign(N + 2 * PAD, CANARY);
  int64_t at = gap;
  for(int rep = 0; rep < 2; ++rep) {
    std::vector<double> b[3] = {a[0], a[1], a[2]};
    int64_t got = particle_lattice::generate(type, dom, lo, hi, sep, at, &a[0][PAD], &a[1][PAD], &a[2][PAD]);
    // slots that changed
    int64_t first = -1, last = -2, changed = 0;
    for(int64_t i = 0; i < N + 2 * PAD; ++i) {
      bool c = false;
      for(int k = 0; k < 3; ++k) c = c || a[k][i] != b[k][i];
      if(c) { if(first < 0) first = i - PAD; last = i - PAD; ++changed; }
    }
    std::string pts = "[";
    std::vector<double> rad;
    bool inside = true;
    for(int64_t i = at; i < at + (rep ? n2 : n); ++i) {
      double c[3] = {a[0][PAD + i], a[1][PAD + i], a[2][PAD + i]};
      double q = 0;
      for(int d = 0; d < D; ++d) {
        double w = (hi[d] - lo[d]), e = c[d] - .5 * (lo[d] + hi[d]);
        inside = inside && c[d] >= lo[d] - 2e-6 * (hi[0] - lo[0]) && c[d] < hi[d];
        q += e * e;
        (void)w;
      }
      double R = .5 * (hi[0] - lo[0]);
      for(int d = 1; d < D; ++d) R = std::min(R, .5 * (hi[d] - lo[d]));
      if(dom == 1 && D > 1) inside = inside && std::sqrt(q) < R * (1 + 5e-6);
      for(int d = D; d < 3; ++d) inside = inside && c[d] == 0.;
      if(i > at) pts += ",";
      if(regular) {
        bool flat = D == 1 || type == 0;
        long long X = hc::asint((c[0] - lo[0]) / sep, 2, 1e-3), Y = D > 1 ? hc::asint((c[1] - lo[1 % D]) / sep / (flat ? 1. : std::sqrt(3.) / 2), 3, 1e-3) : 0,
                  Z = D > 2 ? hc::asint((c[2] - lo[2 % D]) / sep / (flat ? 1. : std::sqrt(2. / 3.)), 1, 1e-3) : 0;
        pts += "[" + std::to_string(X) + "," + std::to_string(Y) + "," + std::to_string(Z) + "]";
      }
      else // positions in units of 1e-6 of the radius: all distinct
        pts += "[" + std::to_string(hc::fix((c[0] - .5 * (lo[0] + hi[0])) / R, 1e6)) + "," + std::to_string(hc::fix((c[1] - .5 * (lo[1 % D] + hi[1 % D])) / R, 1e6)) + "," +
               std::to_string(hc::fix((c[2] - .5 * (lo[2 % D] + hi[2 % D])) / R, 1e6)) + "]";
    }
    pts += "]";
    put(J().t("e", "generate").i("at", at).i("got", got).i("first", first).i("last", last).i("changed", changed).b("inside", inside).raw("pts", pts).str());
    at += rep ? n2 : n;
  }
}

int main(int argc, char ** argv) {
  long seed = atol(argv[1]);
  bool th = argc > 2 && !strcmp(argv[2], "thorough");
  int n = (th ? 600 : 60) * (D == 1 ? 2 : D == 2 ? 3 : 5);
  for(int i = 0; i < n; ++i) {
    fflush(stdout);
    int type = D == 3 ? i % 5 : i % 3;
    pid_t p = fork();
    if(!p) {
      alarm(60);
      rng.seed(seed * 99991 + i * 3 + D);
      one(i, type, th);
      fflush(stdout);
      _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if(!WIFEXITED(st) || WEXITSTATUS(st)) {
      put(J().t("e", "scenario").t("name", "stopped " + std::to_string(i) + " type " + std::to_string(type) + " dim " + std::to_string(D)).i("dim", D).str());
      put(J().t("e", "stopped").str());
    }
  }
  return 0;
}
