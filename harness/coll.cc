// C20: histories of collective operations on simulated ranks.  coll SEED TIER PART PARTS
#include "common.h"
#include "simmpi.h"
#include <cassert>
#include <algorithm>
#include <numeric>
#include <random>
#include "utils.h"
using hc::J;
#pragma pack(push, 1)
struct B3 { unsigned char b[3]; };
#pragma pack(pop)
struct B40 { int64_t a, b, c; double d; int e, f; };
static long long enc(long long v, int & o) { o = (int)v; return 0; }
static void enc(int v, double & o) { o = v + 0.5; }
static void enc(int v, char & o) { o = (char)v; }
static void enc(int v, uint64_t & o) { o = (uint64_t)v << 33 | (unsigned)v; }
static void enc(int v, B3 & o) { o.b[0] = v; o.b[1] = v >> 8; o.b[2] = v >> 16; }
static void enc(int v, B40 & o) { o = {v, -v, v * 3ll, v * .25, v + 1, v + 2}; }
static int dec(int o) { return o; }
static int dec(double o) { return o - std::floor(o) == .5 ? (int)(o - .5) : -7; }
static int dec(char o) { return (unsigned char)o; }
static int dec(uint64_t o) { return (unsigned)o == o >> 33 ? (int)(unsigned)o : -7; }
static int dec(const B3 & o) { return o.b[0] | o.b[1] << 8 | o.b[2] << 16; }
static int dec(const B40 & o) { return o.b == -o.a && o.c == 3 * o.a && o.d == .25 * o.a && o.e == o.a + 1 && o.f == o.a + 2 ? (int)o.a : -7; }

using IV = std::vector<int>;
using IVV = std::vector<IV>;
struct Op {
  int kind, type;      // 0 gather 1 alltoallv 2 p2p 3 p2p by sender 4.. reduce min max sum
  std::vector<IVV> send; // [rank][dest][k]; gather and reduce use dest 0
};
static std::string arr(const IV & v) {
  std::string s = "[";
  for(size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
  return s + "]";
}
static std::string arr(const IVV & v) {
  std::string s = "[";
  for(size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + arr(v[i]);
  return s + "]";
}
template<class T>
static std::vector<T> encs(const IV & v) {
  std::vector<T> o(v.size());
  for(size_t i = 0; i < v.size(); ++i) enc(v[i], o[i]);
  return o;
}
template<class T>
static IV decs(const std::vector<T> & v) {
  IV o;
  for(auto & x : v) o.push_back(dec(x));
  return o;
}
// performs the operation as `rank`; the received integers, as JSON
template<class T>
static std::string move_op(const Op & o, int rank, int n, std::string & count, uint64_t junk) {
  count = "[]";
  const IVV & s = o.send[rank];
  std::vector<T> recv(junk % 5);
  if(o.kind == 0) {
    std::vector<T> b = encs<T>(s[0]);
    IV c(junk % 7, 99);
    mpi_utils::mpi_allgatherv(b, recv, c);
    count = arr(c);
    return arr(decs(recv));
  }
  IV cnt(n);
  for(int i = 0; i < n; ++i) cnt[i] = s[i].size();
  if(o.kind == 3) {
    std::vector<std::vector<T>> b(n), r(n);
    for(int i = 0; i < n; ++i) { b[i] = encs<T>(s[i]); r[i].resize((junk >> i) % 3); }
    mpi_utils::mpi_alltoallv_p2p(cnt, b, r);
    IVV v;
    for(auto & x : r) v.push_back(decs(x));
    return arr(v);
  }
  IV flat;
  for(auto & v : s) flat.insert(flat.end(), v.begin(), v.end());
  std::vector<T> b = encs<T>(flat);
  if(o.kind == 1)
    mpi_utils::mpi_alltoallv(cnt, b, recv);
  else
    mpi_utils::mpi_alltoallv_p2p(cnt, b, recv);
  return arr(decs(recv));
}
template<class T>
static void red(int kind, T & v) {
  if(kind == 4) mpi_utils::reduce_min(v);
  else if(kind == 5) mpi_utils::reduce_max(v);
  else mpi_utils::reduce_sum(v);
}
static const uint64_t U = 1ull << 58; // unit of the unsigned 64-bit operands: up to 63 units fit
static std::string reduce_op(const Op & o, int rank) {
  const IV & s = o.send[rank][0];
  if(o.type == 0) { double v = s[0] / 8.; red(o.kind, v); return arr(IV{(int)hc::asint(v, 8, 0)}); }
  if(o.type == 1) { float v = s[0] / 8.f; red(o.kind, v); return arr(IV{(int)hc::asint(v, 8, 0)}); }
  if(o.type == 2) { uint64_t v = (uint64_t)s[0] * U; red(o.kind, v); return arr(IV{v % U ? -7 : (int)(v / U)}); }
  if(o.type == 3) { int v = s[0]; red(o.kind, v); return arr(IV{v}); }
  point_t v;
  for(size_t d = 0; d < gdimension; ++d) v[d] = s[d] / 8.;
  mpi_utils::reduce_sum(v);
  IV out;
  for(size_t d = 0; d < gdimension; ++d) out.push_back(hc::asint(v[d], 8, 0));
  return arr(out);
}
static std::string perform(const Op & o, int rank, int n, std::string & count, uint64_t junk) {
  count = "[]";
  if(o.kind >= 4)
    return reduce_op(o, rank);
  switch(o.type) {
    case 0: return move_op<int>(o, rank, n, count, junk);
    case 1: return move_op<double>(o, rank, n, count, junk);
    case 2: return move_op<char>(o, rank, n, count, junk);
    case 3: return move_op<uint64_t>(o, rank, n, count, junk);
    case 4: return move_op<B3>(o, rank, n, count, junk);
    default: return move_op<B40>(o, rank, n, count, junk);
  }
}
int main(int argc, char ** argv) {
  const uint64_t seed = std::strtoull(argv[1], nullptr, 10);
  const bool big = std::string(argv[2]) == "thorough";
  const int part = std::atoi(argv[3]), parts = std::atoi(argv[4]);
  for(int sc = part; sc < (big ? 1200 : 160); sc += parts) {
    if(sim_tired()) break;
    std::mt19937_64 rng(seed * 1000003 + sc * 17 + gdimension);
    const int n = 1 + sc % 8;
    std::vector<Op> ops;
    const int nops = 2 + rng() % 7;
    for(int k = 0; k < nops; ++k) {
      Op o;
      o.kind = k == 0 ? sc / 8 % 7 : rng() % 7;
      if(o.kind >= 4) {
        o.type = rng() % (o.kind == 6 ? 5 : 4);
        o.send.assign(n, IVV(1));
        const int mode = rng() % 4;
        for(int r = 0; r < n; ++r) {
          IV & s = o.send[r][0];
          for(size_t d = 0; d < (o.type == 4 ? gdimension : 1); ++d) {
            int v = (int)(rng() % 2000001) - 1000000;
            if(mode == 0) v = -std::abs(v) - 1; // all negative
            if(mode == 1) v = std::abs(v) + 1;
            if(o.type == 2) v = o.kind == 6 ? rng() % 8 : rng() % 64; // sums fit: 8 ranks * 7 units
            s.push_back(v);
          }
        }
      }
      else {
        o.type = rng() % 6;
        const int mode = rng() % 6, special = rng() % n, many = rng() % 5 ? 4 : 300;
        int id = 1;
        o.send.resize(n);
        for(int r = 0; r < n; ++r) {
          o.send[r].resize(o.kind == 0 ? 1 : n);
          for(size_t d = 0; d < o.send[r].size(); ++d) {
            int c = rng() % many;
            if(mode == 0) c = 0;
            if(mode == 1) c = (r == special) ? c + 1 : 0;       // one sender
            if(mode == 2) c = ((int)d == special) ? c + 1 : 0;  // one receiver
            if(mode == 3) c = ((int)d == r) ? c + 1 : 0;        // to itself
            if(mode == 4) c = ((int)d == r) ? 0 : c + 1;        // never to itself
            for(int j = 0; j < c; ++j)
              o.send[r][d].push_back(o.type == 2 ? id++ % 251 : id++);
          }
        }
      }
      ops.push_back(o);
    }
    SimConfig c;
    c.nranks = n;
    c.seed = rng();
    c.policy = rng() % 5;
    c.rendezvous = rng() % 2;
    const uint64_t junk = rng();
    std::cout << J().t("e", "scenario").t("name", "coll" + std::to_string(gdimension) + "." + std::to_string(sc)).i("ranks", n).i("policy", c.policy).b("rendezvous", c.rendezvous).str() << "\n";
    auto r = sim_run(c, [&](int rank) {
      for(size_t k = 0; k < ops.size(); ++k) {
        std::string cnt;
        std::string v = perform(ops[k], rank, n, cnt, junk >> (rank + k));
        sim_log(std::to_string(k) + " " + std::to_string(rank) + " " + cnt + " " + v);
      }
    });
    std::vector<std::vector<std::string>> res(ops.size(), std::vector<std::string>(n)), cnt = res;
    for(auto & s : r.logs) {
      std::istringstream is(s);
      size_t k, rk;
      std::string a, b;
      is >> k >> rk >> a >> b;
      cnt[k][rk] = a;
      res[k][rk] = b;
    }
    auto all = [](const std::vector<std::string> & v) {
      std::string s = "[";
      for(size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + v[i];
      return s + "]";
    };
    for(size_t k = 0; k < ops.size(); ++k) {
      bool done = true;
      for(auto & s : res[k]) done = done && !s.empty();
      if(!done) break;
      static const char * nm[] = {"gather", "exchange", "exchange", "exchangeby", "reduce", "reduce", "reduce"};
      J j;
      j.t("e", nm[ops[k].kind]).i("kind", ops[k].kind).i("type", ops[k].type);
      if(ops[k].kind >= 4) j.t("op", ops[k].kind == 4 ? "min" : ops[k].kind == 5 ? "max" : "sum");
      std::string snd = "[";
      for(int q = 0; q < n; ++q)
        snd += (q ? "," : "") + (ops[k].kind == 0 || ops[k].kind >= 4 ? arr(ops[k].send[q][0]) : arr(ops[k].send[q]));
      j.raw("send", snd + "]").raw("recv", all(res[k])).raw("count", all(cnt[k]));
      std::cout << j.str() << "\n";
    }
    std::cout << J().t("e", "end").t("outcome", r.ok ? "ok" : r.error).i("leftover", r.leftover).str() << "\n";
  }
}
