// C23: the cell table under random and exhaustive short histories.   hash SEED TIER
#include "common.h"
#include <cassert>
#include <cstdint>
#include <random>
#include <vector>
#include "hashtable.h"
using hc::J;
struct K64 {
  using type = uint64_t;
  uint64_t v;
  K64(uint64_t x = 0) : v(x) {}
  explicit operator type() const { return v; }
  bool operator==(const K64 & o) const { return v == o.v; }
  bool operator!=(const K64 & o) const { return v != o.v; }
};
struct K32 {
  using type = uint32_t;
  uint32_t v;
  K32(uint64_t x = 0) : v((uint32_t)x) {}
  explicit operator type() const { return v; }
  bool operator==(const K32 & o) const { return v == o.v; }
  bool operator!=(const K32 & o) const { return v != o.v; }
};
struct K128 {
  using type = __uint128_t;
  __uint128_t v;
  K128(uint64_t x = 0) : v(((__uint128_t)(x >> 20) << 70) ^ x) {}
  explicit operator type() const { return v; }
  bool operator==(const K128 & o) const { return v == o.v; }
  bool operator!=(const K128 & o) const { return v != o.v; }
};
struct Val { // a value with a constructor, so emplace must forward both arguments
  int a;
  std::string s;
  Val(int x, const char * t) : a(x), s(t) {}
  bool ok() const { return s == "value-" + std::to_string(a % 7); }
};
static std::mt19937_64 rng;
template<class K>
struct Run {
  hashtable<K, Val> t;
  std::vector<K> keys;
  std::vector<bool> in;
  void begin(const std::string & name, int n) {
    puts(J().t("e", "scenario").t("name", name).i("n", n).str().c_str());
    in.assign(n, false);
  }
  void universe(int n, int kind) {
    keys.clear();
    while((int)keys.size() < n) {
      uint64_t low = kind == 0 ? rng() & 3 : kind == 1 ? 0 : kind == 2 ? (1u << 22) - 1 - (rng() & 1) : rng() & ((1u << 22) - 1);
      uint64_t hi = rng() % (sizeof(typename K::type) == 4 ? 1024 : 1u << 20);
      K k(low | hi << 22);
      bool dup = false;
      for(auto & x : keys) dup = dup || x == k;
      if(!dup) keys.push_back(k);
    }
  }
  void insert(int i, int v) {
    t.emplace(keys[i], Val(v, ("value-" + std::to_string(v % 7)).c_str()));
    in[i] = true;
    puts(J().t("e", "insert").i("k", i + 1).i("v", v).i("size", t.size()).str().c_str());
  }
  int get(int i) {
    auto it = t.find(keys[i]);
    if(it == t.end()) return 0;
    if(it->first != keys[i] || !it->second.ok()) return -1;
    return it->second.a;
  }
  void find(int i) { int r = get(i); puts(J().t("e", "find").i("k", i + 1).i("r", r).i("size", t.size()).str().c_str()); }
  void update(int i, int v) {
    auto it = t.find(keys[i]);
    if(it == t.end()) { puts(J().t("e", "lost").i("k", i + 1).str().c_str()); return; }
    it->second = Val(v, ("value-" + std::to_string(v % 7)).c_str());
    puts(J().t("e", "update").i("k", i + 1).i("v", v).i("size", t.size()).str().c_str());
  }
  void clear() {
    t.clear();
    std::fill(in.begin(), in.end(), false);
    puts(J().t("e", "clear").i("size", t.size()).str().c_str());
  }
  void probe() {
    std::vector<int> r;
    for(size_t i = 0; i < keys.size(); ++i) r.push_back(get(i));
    puts(J().t("e", "probe").a("r", r).i("size", t.size()).str().c_str());
  }
};
template<class K>
static void random_histories(const char * nm, int rounds, int ops) {
  for(int kind = 0; kind < 4; ++kind) {
    Run<K> r;
    for(int s = 0; s < rounds; ++s) {
      int n = kind == 3 ? 150 : 40;
      r.universe(n, kind);
      r.begin(std::string(nm) + " " + std::to_string(kind) + " " + std::to_string(s), n);
      if(s) r.clear();
      int v = 1;
      for(int o = 0; o < ops; ++o) {
        int i = rng() % n, c = rng() % 100;
        if(!r.in[i]) { if(c < 60) r.insert(i, v++); else r.find(i); }
        else if(c < 40) r.update(i, v++);
        else r.find(i);
        if(c == 99) r.probe();
        if(c == 98 && o % 5 == 0) { r.clear(); r.probe(); }
      }
      r.probe();
    }
  }
}
// all histories of length L of {put k, get k} for three keys, two of them colliding
static void exhaustive(int L) {
  Run<K64> r;
  long total = 1;
  for(int i = 0; i < L; ++i) total *= 6;
  for(int b = 0; b < 3; ++b) {
    uint64_t low = b == 0 ? 0 : b == 1 ? (1u << 22) - 1 : 12345;
    if(b) r.t.clear();
    for(long h = 0; h < total; h += 1 + (b && L > 4 ? rng() % 5 : 0)) {
      r.keys = {K64(low | (uint64_t)(3 * h + 1) << 22), K64(low | (uint64_t)(3 * h + 2) << 22), K64((low ^ 1) | (uint64_t)(3 * h + 1) << 22)};
      puts(J().t("e", "scenario").t("name", "all " + std::to_string(b) + " " + std::to_string(h)).i("n", 3).i("base", r.t.size()).str().c_str());
      r.in.assign(3, false);
      long x = h;
      for(int i = 0; i < L; ++i, x /= 6) {
        int k = x % 3;
        if(x % 6 < 3) { if(r.in[k]) r.update(k, i + 1); else r.insert(k, i + 1); }
        else r.find(k);
      }
      r.probe();
    }
  }
}
int main(int argc, char ** argv) {
  rng.seed(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
  bool deep = argc > 2 && std::string(argv[2]) == "thorough";
  { // a fresh table is empty, also on dirty memory
    for(int i = 0; i < 3; ++i) {
      alignas(hashtable<K64, Val>) static unsigned char mem[sizeof(hashtable<K64, Val>)];
      memset(mem, 0x5a + i, sizeof mem);
      auto * t = new(mem) hashtable<K64, Val>;
      puts(J().t("e", "scenario").t("name", "fresh " + std::to_string(i)).i("n", 1).str().c_str());
      puts(J().t("e", "probe").a("r", std::vector<int>{t->find(K64(rng())) == t->end() ? 0 : -1}).i("size", t->size()).str().c_str());
      t->~hashtable<K64, Val>();
    }
  }
  random_histories<K64>("k64", deep ? 6 : 2, deep ? 3000 : 600);
  random_histories<K128>("k128", deep ? 4 : 1, deep ? 3000 : 600);
  random_histories<K32>("k32", deep ? 4 : 1, deep ? 3000 : 600);
  exhaustive(deep ? 5 : 4);
}
