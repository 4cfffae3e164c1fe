// C01: drives the space-filling-curve keys and records what they do.
//   curve SEED TIER
#include <array>
#include <cassert>
#include <cstdint>
#include <algorithm>
#include <random>
#include "common.h"
#include "filling_curve.h"
using namespace flecsi;
using hc::J;

template<class T>
static std::vector<int> digits(T v, int dim) { // independent of the class under test
  std::vector<int> d;
  if(v == 0) return {-1};
  while((v >> dim) != 0) { d.insert(d.begin(), (int)(v & ((T(1) << dim) - 1))); v >>= dim; }
  if(v != 1) return {-2};
  return d;
}
static std::string vv(const std::vector<int> & v) {
  std::string s = "[";
  for(size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
  return s + "]";
}
static std::string vvv(const std::vector<std::vector<int>> & v) {
  std::string s = "[";
  for(size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + vv(v[i]);
  return s + "]";
}
static void put(const std::string & s) { puts(s.c_str()); }
static std::mt19937_64 rng;
static uint64_t rnd(uint64_t n) { return rng() % n; }

template<template<size_t, typename> class C, size_t D, typename T>
struct Run {
  using K = C<D, T>;
  using P = space_vector_u<double, D>;
  using R = std::array<P, 2>;
  const char * cn;
  int md = (int)K::max_depth();
  bool morton;

  std::vector<int> dg(const K & k) { return digits<T>(k.value(), D); }

  void begin(const std::string & what) {
    put(J().t("e", "scenario").t("name", std::string(cn) + std::to_string(D) + "/" + std::to_string(8 * sizeof(T)) + " " + what)
          .b("morton", morton).i("dim", D).i("md", md).i("wd", (8 * sizeof(T) - 1) / D).str());
  }
  R mkrange(int kind) {
    R r;
    for(size_t i = 0; i < D; ++i) {
      r[0][i] = kind == 0 ? 0. : kind == 1 ? -1. - (double)i : 3.25;
      r[1][i] = r[0][i] + (kind == 0 ? 1. : kind == 1 ? (double)(4 << i) : 0.03125);
    }
    return r;
  }
  // all cells of depth d, in key order
  void grids(int kind, int off) {
    begin("grid range " + std::to_string(kind) + " offset " + std::to_string(off));
    R rg = mkrange(kind);
    int dm = std::min(md, D == 1 ? 9 : D == 2 ? 5 : 3);
    for(int d = 0; d <= dm; ++d) {
      long n = 1L << (d * D);
      std::vector<std::pair<T, std::vector<int>>> at;
      std::vector<int> dep;
      for(long c = 0; c < n; ++c) {
        P p;
        std::vector<int> q(D);
        long t = c;
        for(size_t i = 0; i < D; ++i) {
          q[i] = (int)(t & ((1L << d) - 1));
          t >>= d;
          double w = rg[1][i] - rg[0][i];
          double o = off == 0 ? 0. : off == 1 ? .5 : off == 2 ? 1. - 1e-3 : (double)rnd(1000) / 1000.;
          p[i] = rg[0][i] + w * (q[i] + o) / (double)(1L << d);
        }
        K k(rg, p, (size_t)d);
        at.push_back({k.value(), q});
        dep.push_back((int)k.depth());
      }
      std::sort(at.begin(), at.end(), [](auto & a, auto & b) { return a.first < b.first; });
      std::vector<std::vector<int>> ks, cs;
      for(auto & a : at) { ks.push_back(digits<T>(a.first, D)); cs.push_back(a.second); }
      bool dok = std::all_of(dep.begin(), dep.end(), [&](int x) { return x == d; });
      put(J().t("e", "grid").i("d", d).b("dep", dok).raw("keys", vvv(ks)).raw("cells", vvv(cs)).str());
    }
  }
  static std::vector<int> bitsof(unsigned __int128 c, int n) {
    std::vector<int> b(n);
    for(int i = 0; i < n; ++i) b[i] = (int)((c >> (n - 1 - i)) & 1);
    return b;
  }
  void points(int count) {
    begin("points");
    for(int it = 0; it < count; ++it) {
      int kind = (int)rnd(2);
      R rg = mkrange(kind);
      P p;
      std::vector<std::vector<int>> xb;
      std::vector<uint64_t> cell(D);
      int sig = std::min(md, 46); // significant bits of the position: exact in double
      for(size_t i = 0; i < D; ++i) {
        uint64_t c;
        int s = (int)rnd(6);
        if(s == 0) c = 0;
        else if(s == 1) c = (uint64_t(1) << sig) - 1;
        else if(s == 2) c = uint64_t(1) << rnd(sig);
        else c = rng() & ((uint64_t(1) << sig) - 1);
        double f = std::ldexp((double)c, -sig); // in [0,1)
        p[i] = rg[0][i] + (rg[1][i] - rg[0][i]) * f;
        cell[i] = c << (md - sig);
        if(rnd(12) == 0) { p[i] = rg[1][i]; cell[i] = (uint64_t(1) << md) - 1; }
        xb.push_back(bitsof(cell[i], md));
      }
      K k(rg, p);
      std::vector<std::vector<int>> sub;
      std::vector<int> sd, td;
      std::vector<std::vector<int>> tr;
      for(int d = 0; d <= md; d += 1 + (int)rnd(3)) {
        K a(rg, p, (size_t)d);
        sub.push_back(dg(a));
        sd.push_back((int)a.depth());
        K t = k;
        t.truncate((size_t)d);
        tr.push_back(dg(t));
        td.push_back(d);
      }
      // decoded position, in cells of full depth
      P q;
      K kk = k;
      kk.coordinates(rg, q);
      auto devof = [&](const P & q, const std::vector<uint64_t> & cell) {
        long dev = 0;
        for(size_t i = 0; i < D; ++i) {
          long double f = ((long double)q[i] - rg[0][i]) / ((long double)rg[1][i] - rg[0][i]);
          long double c = f * (long double)(uint64_t(1) << (md - 1)) * 2;
          long double e = c - (long double)cell[i]; // 0 at the lower corner
          long double tol = (long double)std::ldexp(1., std::max(0, md - 50)) ;
          long double x = e < 0 ? -e : e;
          long dd;
          if(x <= tol * 1e-6L || (md > 50 && x <= tol)) dd = 0;
          else if(e > 0 && e <= 1.0001L) dd = 1;
          else dd = 2;
          dev = std::max(dev, dd);
        }
        return dev;
      };
      long dev = devof(q, cell);
      // morton: decode and box of a key of smaller depth
      int dlow = 0;
      long dev2 = 0, box = 0;
      if(morton) {
        dlow = (int)rnd(md + 1);
        K a(rg, p, (size_t)dlow);
        std::vector<uint64_t> c2 = cell;
        for(auto & c : c2) c = dlow == 0 ? 0 : (c >> (md - dlow)) << (md - dlow);
        P q2;
        if(dlow > 0) {
          K b = a;
          b.coordinates(rg, q2);
          dev2 = devof(q2, c2);
        }
        int db = std::min(dlow, 20);
        K bb = a;
        bb.truncate(db);
        auto bx = bb.range(rg);
        for(size_t i = 0; i < D; ++i) {
          double w = std::ldexp(rg[1][i] - rg[0][i], -db);
          double c = db == 0 ? 0. : (double)(cell[i] >> (md - db));
          if(bx[0][i] != rg[0][i] + c * w || bx[1][i] != rg[0][i] + (c + 1) * w) box = 1;
        }
      }
      put(J().t("e", "pt").raw("xb", vvv(xb)).raw("key", vv(dg(k))).i("depth", k.depth()).raw("sub", vvv(sub)).a("sd", sd).raw("tr", vvv(tr)).a("td", td).i("dev", dev).i("dev2", dev2).i("box", box).str());
    }
  }
  // histories of key operations
  void history(int len) {
    begin("history");
    put(J().t("e", "const").raw("root", vv(dg(K::root()))).raw("min", vv(dg(K::min()))).raw("max", vv(dg(K::max()))).b("null", K::null().is_null() && K::null().value() == 0 && !K::root().is_null()).str());
    K k = K::root();
    K other = K::root();
    std::vector<int> save = {};
    for(int i = 0; i < len; ++i) {
      int d = (int)digits<T>(k.value(), D).size();
      int op = (int)rnd(12);
      J j;
      if(op <= 4 && d < md) {
        int b = (int)rnd(1 << D);
        k.push((T)b);
        j.t("e", "push").i("v", b);
      }
      else if(op == 5 && d > 0) { k.pop(); j.t("e", "pop").i("v", 1); }
      else if(op == 6 && d > 0) { int v = k.pop_value(); j.t("e", "popv").i("v", v); }
      else if(op == 7 && d > 0) { int n = (int)rnd(d + 1); k.pop((size_t)n); j.t("e", "pop").i("v", n); }
      else if(op == 8) { int n = (int)rnd(md + 2); k.truncate((size_t)n); j.t("e", "trunc").i("v", n); }
      else if(op == 9 && d > 0) { j.t("e", "last").i("v", k.last_value()); }
      else if(op == 10) { other = K(k); j.t("e", "copy").i("v", 0); }
      else {
        j.t("e", "cmp").i("v", 0).raw("o", vv(dg(other))).b("eq", k == other).b("ne", k != other).b("lt", k < other).b("gt", k > other).b("le", k <= other).b("ge", k >= other);
      }
      j.raw("k", vv(dg(k))).i("depth", k.value() == 0 ? -1 : (long)k.depth());
      if(k.value() > 1) {
        auto p = k.parent();
        j.raw("par", vv(digits<T>(p.value(), D)));
      }
      else j.raw("par", "[]");
      put(j.str());
    }
    // depth at which two full keys part
    R rg = mkrange(0);
    for(int i = 0; i < len / 4; ++i) {
      P p, q;
      for(size_t c = 0; c < D; ++c) {
        p[c] = (double)rnd(1 << 20) / (1 << 20);
        q[c] = rnd(3) ? p[c] : std::fmod(p[c] + std::ldexp(1., -(int)rnd(20)), 1.);
      }
      K a(rg, p), b(rg, q);
#ifndef NO_CONFLICT
      put(J().t("e", "conf").raw("a", vv(dg(a))).raw("b", vv(dg(b))).i("v", a.conflict_depth(a, b)).str());
#endif
    }
  }
  void all(bool thorough) {
    for(int kind = 0; kind < 3; ++kind)
      for(int off = 0; off < 4; ++off)
        if(thorough || off == kind % 2 || off == 2 + kind % 2) grids(kind, off);
    points(thorough ? 1500 : 120);
    for(int i = 0; i < (thorough ? 8 : 1); ++i) history(thorough ? 1000 : 200);
  }
};

template<typename T>
static void types(bool th) {
  Run<hilbert_curve_u, 1, T>{"hilbert", (int)hilbert_curve_u<1, T>::max_depth(), false}.all(th);
  Run<hilbert_curve_u, 2, T>{"hilbert", (int)hilbert_curve_u<2, T>::max_depth(), false}.all(th);
  Run<hilbert_curve_u, 3, T>{"hilbert", (int)hilbert_curve_u<3, T>::max_depth(), false}.all(th);
  Run<morton_curve_u, 1, T>{"morton", (int)morton_curve_u<1, T>::max_depth(), true}.all(th);
  Run<morton_curve_u, 2, T>{"morton", (int)morton_curve_u<2, T>::max_depth(), true}.all(th);
  Run<morton_curve_u, 3, T>{"morton", (int)morton_curve_u<3, T>::max_depth(), true}.all(th);
}
int main(int argc, char ** argv) {
  rng.seed(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
  bool th = argc > 2 && std::string(argv[2]) == "thorough";
  types<uint64_t>(th);
  types<uint32_t>(th);
  types<uint16_t>(th);
}
