// C22: tensors and space vectors.   tensor SEED TIER
// tensor_names.h is generated by checks/tensor.py: for every rank and
// dimension, name<D>(t, k) is t[<the k-th enumerator>] and idx_of(k).
#include <array>
#include <cassert>
#include <cstdint>
#include <random>
#include <algorithm>
#include "common.h"
#include "space_vector.h"
using namespace flecsi;
using hc::J;
#include "tensor_names.h"

static std::mt19937_64 rng;
static int rnd(int n) { return (int)(rng() % n); }
static void put(const std::string & s) { puts(s.c_str()); }
static std::string V(const std::vector<long> & v) {
  std::string s = "[";
  for(size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
  return s + "]";
}

// access by indices, for any rank
template<class T> double & at(T & t, const std::array<int, 4> & i) {
  int a = i[0], b = i[1], c = i[2], d = i[3];
  if constexpr(T::RANK == 1) return t(a);
  else if constexpr(T::RANK == 2) return t(a, b);
  else if constexpr(T::RANK == 3) return t(a, b, c);
  else return t(a, b, c, d);
}
template<class T> double cat(const T & t, const std::array<int, 4> & i) {
  int a = i[0], b = i[1], c = i[2], d = i[3];
  if constexpr(T::RANK == 1) return t(a);
  else if constexpr(T::RANK == 2) return t(a, b);
  else if constexpr(T::RANK == 3) return t(a, b, c);
  else return t(a, b, c, d);
}
template<class T> long flat(const std::array<int, 4> & i) {
  int a = i[0], b = i[1], c = i[2], d = i[3];
  if constexpr(T::RANK == 1) return T::multiindex(a);
  else if constexpr(T::RANK == 2) return T::multiindex(a, b);
  else if constexpr(T::RANK == 3) return T::multiindex(a, b, c);
  else return T::multiindex(a, b, c, d);
}

template<class T, bool NAMED>
struct Run {
  std::array<int, 4> dims;
  std::vector<std::array<int, 4>> all;
  std::string nm;
  void dump(T & t) {
    std::vector<long> byc, byn;
    const T & ct = t;
    for(auto & i : all) {
      double v = at(t, i), w = cat(ct, i);
      byc.push_back(v == w ? hc::asint(v) : -77777);
    }
    if constexpr(NAMED)
      for(auto & i : all) byn.push_back(hc::asint(Names<T::RANK>::template get<T>(t, i)));
    put(J().t("e", "dump").raw("byc", V(byc)).raw("byn", V(byn)).str());
  }
  // assign every component in random order through one of the interfaces
  void assign(T & t, bool named, int count, int mult) {
    auto o = all;
    std::shuffle(o.begin(), o.end(), rng);
    if((int)o.size() > count) o.resize(count);
    std::string s = "[";
    for(auto & i : o) {
      int v = rnd(2000) * mult - 1000;
      if constexpr(NAMED) {
        if(named) Names<T::RANK>::template get<T>(t, i) = v;
        else at(t, i) = v;
      }
      else at(t, i) = v;
      std::vector<long> e(i.begin(), i.begin() + T::RANK);
      s += (s.size() > 1 ? "," : "") + std::string("{\"i\":") + V(e) + ",\"v\":" + std::to_string(v) + "}";
    }
    put(J().t("e", "set").raw("w", s + "]").str());
  }
  void run(const std::string & name, bool sym, std::array<int, 4> dm, int rounds) {
    dims = dm;
    nm = name;
    std::string ix = "[";
    for(int a = 0; a < dims[0]; ++a)
      for(int b = 0; b < (T::RANK > 1 ? dims[1] : 1); ++b)
        for(int c = 0; c < (T::RANK > 2 ? dims[2] : 1); ++c)
          for(int d = 0; d < (T::RANK > 3 ? dims[3] : 1); ++d) all.push_back({a, b, c, d});
    std::vector<long> fl;
    for(auto & i : all) {
      ix += (ix.size() > 1 ? "," : "") + V(std::vector<long>(i.begin(), i.begin() + T::RANK));
      fl.push_back(flat<T>(i));
    }
    put(J().t("e", "scenario").t("name", name).b("sym", sym).i("rank", T::RANK).a("dims", std::vector<long>(dims.begin(), dims.begin() + T::RANK)).raw("ix", ix + "]").a("flat", fl).i("size", T::size()).str());
    T t(0.);
    put(J().t("e", "fill").i("v", 0).str());
    for(int r = 0; r < rounds; ++r) {
      assign(t, r % 2 == 1, r < 2 ? 1000 : 1 + rnd((int)all.size()), 1);
      dump(t);
      int op = rnd(9);
      if(op == 0) { int v = rnd(100); t = (double)v; put(J().t("e", "fill").i("v", v).str()); dump(t); }
      else if(op == 1) { T u(t); T w; w = u; bool eq = (w == t), ne = (w != t); at(w, all[rnd((int)all.size())]) += 1.; put(J().t("e", "cmp").b("eq", eq).b("ne", ne).b("eq2", w == t).b("ne2", w != t).str()); dump(t); }
      else if(op == 2) { int v = rnd(9) - 4; t += (double)v; put(J().t("e", "addc").i("v", v).str()); dump(t); }
      else if(op == 3) { int v = rnd(9) - 4; t -= (double)v; put(J().t("e", "addc").i("v", -v).str()); dump(t); }
      else if(op == 4) { int v = rnd(5) - 2; if(rnd(2)) t = (double)v * t; else t = t * (double)v; put(J().t("e", "mul").i("v", v).str()); dump(t); }
      else if(op == 5) { // t + t/1, t + t + t - t ...
        T u = t + t; T w = u - t; T z = w / 1.;
        bool ok = (z == t);
        put(J().t("e", "cmp").b("eq", ok).b("ne", !ok).b("eq2", false).b("ne2", true).str());
        t = u; put(J().t("e", "mul").i("v", 2).str()); dump(t);
        t /= 2.; put(J().t("e", "div").i("v", 2).str()); dump(t);
      }
      else if(op == 6) { t += t; put(J().t("e", "mul").i("v", 2).str()); dump(t); }
      else if(op == 7) { t -= t; put(J().t("e", "mul").i("v", 0).str()); dump(t); }
      else { // component-wise with a second tensor
        T u(t);
        for(size_t k = 0; k < T::size(); ++k) u[k] = (double)(k + 1);
        // name the slots by the flat index of every component
        t += u; put(J().t("e", "addf").i("v", 1).str()); dump(t);
        t -= u; put(J().t("e", "addf").i("v", -1).str()); dump(t);
      }
    }
  }
};
template<int D> static void dims(int rounds) {
  std::string d = std::to_string(D);
  Run<tensor_u<double, symmetry_type::generic, D>, true>().run("generic 1 " + d, false, {D, 1, 1, 1}, rounds);
  Run<tensor_u<double, symmetry_type::generic, D, D>, true>().run("generic 2 " + d, false, {D, D, 1, 1}, rounds);
  Run<tensor_u<double, symmetry_type::generic, D, D, D>, true>().run("generic 3 " + d, false, {D, D, D, 1}, rounds);
  Run<tensor_u<double, symmetry_type::generic, D, D, D, D>, true>().run("generic 4 " + d, false, {D, D, D, D}, rounds / (D > 2 ? 3 : 1));
  Run<tensor_u<double, symmetry_type::symmetric, D, D>, true>().run("symmetric 2 " + d, true, {D, D, 1, 1}, rounds);
  Run<tensor_u<double, symmetry_type::symmetric, D, D, D>, true>().run("symmetric 3 " + d, true, {D, D, D, 1}, rounds);
  Run<tensor_u<double, symmetry_type::symmetric, D, D, D, D>, true>().run("symmetric 4 " + d, true, {D, D, D, D}, rounds / (D > 2 ? 3 : 1));
}
template<size_t D> using vec = space_vector_u<double, D>;
template<size_t D> static std::string vs(const vec<D> & v, double s = 1.) {
  std::vector<long> o;
  for(size_t i = 0; i < D; ++i) o.push_back(hc::asint(v[i], s));
  return V(o);
}
template<size_t D> static void vectors(int n) {
  put(J().t("e", "scenario").t("name", "vectors " + std::to_string(D)).b("sym", false).i("rank", 1).a("dims", std::vector<long>{(long)D}).raw("ix", "[]").raw("flat", "[]").i("size", D).str());
  for(int k = 0; k < n; ++k) {
    vec<D> a, b, c;
    for(size_t i = 0; i < D; ++i) { a[i] = rnd(121) - 60; b[i] = rnd(4) ? rnd(121) - 60 : a[i]; c[i] = rnd(121) - 60; }
    if(rnd(6) == 0) b = a;
    double s = 1 + rnd(8);
    J j;
    j.t("e", "vec").raw("a", vs<D>(a)).raw("b", vs<D>(b)).i("s", s);
    j.raw("add", vs<D>(a + b)).raw("sub", vs<D>(a - b)).raw("mul", vs<D>(a * s)).raw("lmul", vs<D>(s * a)).raw("div8", vs<D>((8 * s) * a / s));
    vec<D> t = a; t /= s; t *= s; t += b; t -= b;
    j.raw("chain", vs<D>(t));
    j.i("dot", hc::asint(dot(a, b))).i("dist2", hc::asint(std::pow(distance(a, b), 2), 1, 1e-5)).i("mag2", hc::asint(std::pow(magnitude(a), 2), 1, 1e-5));
    j.raw("mid2", vs<D>(midpoint(a, b), 2.)).b("eq", a == b).b("ne", a != b);
    std::vector<vec<D>> pts = {a, b, c, a};
    j.raw("c", vs<D>(c)).raw("cen4", vs<D>(centroid(pts), 4.));
    j.raw("cross", vs<D>(cross(a, b))).i("cm2", hc::asint(std::pow(cross_magnitude(a, b), 2), 1., 1e-4));
    if constexpr(D > 1) j.raw("normal", vs<D>(normal(a, b)));
    else j.raw("normal", "[]");
    // constructors
    vec<D> f(7.), l, v;
    if constexpr(D == 1) { l = {a[0]}; v = vec<D>(a[0]); }
    if constexpr(D == 2) { l = {a[0], a[1]}; v = vec<D>(a[0], a[1]); }
    if constexpr(D == 3) { l = {a[0], a[1], a[2]}; v = vec<D>(a[0], a[1], a[2]); }
    j.raw("fill7", vs<D>(f)).raw("list", vs<D>(l)).raw("var", vs<D>(v));
    put(j.str());
  }
}
int main(int argc, char ** argv) {
  rng.seed(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
  bool th = argc > 2 && std::string(argv[2]) == "thorough";
  int r = th ? 200 : 12;
  dims<1>(r);
  dims<2>(r);
  dims<3>(r);
  dims<4>(r);
  Run<tensor_u<double, symmetry_type::generic, 2, 3>, false>().run("generic 2x3", false, {2, 3, 1, 1}, r);
  Run<tensor_u<double, symmetry_type::generic, 4, 2>, false>().run("generic 4x2", false, {4, 2, 1, 1}, r);
  Run<tensor_u<double, symmetry_type::generic, 3, 2, 4>, false>().run("generic 3x2x4", false, {3, 2, 4, 1}, r);
  Run<tensor_u<double, symmetry_type::generic, 2, 1, 3, 2>, false>().run("generic 2x1x3x2", false, {2, 1, 3, 2}, r);
  vectors<1>(th ? 3000 : 150);
  vectors<2>(th ? 3000 : 150);
  vectors<3>(th ? 3000 : 150);
}
