// C16: parameter files read by 1..N ranks.   param SEED LIST
// LIST: lines "name nranks policy path"
#include "common.h"
#include "simmpi.h"
#include <charconv>
#include <set>
#include "params.h"
using hc::J;
static std::string tok(char c) {
  switch(c) {
    case '\t': return "TAB";
    case '\r': return "CR";
    case '"': return "DQ";
    case '\\': return "\\\\";
    default: return std::string(1, c);
  }
}
static std::string chars(const std::string & s) {
  std::string o = "[";
  for(size_t i = 0; i < s.size(); ++i)
    o += (i ? ",\"" : "\"") + tok(s[i]) + "\"";
  return o + "]";
}
static std::string normal(bool neg, std::string d, int x) {
  size_t a = d.find_first_not_of('0');
  if(a == std::string::npos)
    return "{\"neg\":false,\"d\":[],\"x\":0}";
  size_t b = d.find_last_not_of('0');
  x += d.size() - 1 - b;
  return std::string("{\"neg\":") + (neg ? "true" : "false") + ",\"d\":" + chars(d.substr(a, b - a + 1)) + ",\"x\":" + std::to_string(x) + "}";
}
static std::string num(double v) {
  if(!std::isfinite(v))
    return "{\"neg\":false,\"d\":[\"?\"],\"x\":0}";
  char b[64];
  auto r = std::to_chars(b, b + 64, std::fabs(v), std::chars_format::scientific);
  std::string s(b, r.ptr), d;
  size_t e = s.find('e');
  int x = std::stoi(s.substr(e + 1));
  for(char c : s.substr(0, e))
    if(c != '.')
      d += c;
  x -= (int)d.size() - 1;
  return normal(std::signbit(v), d, x);
}
static std::string num(int64_t v) {
  uint64_t u = v < 0 ? 0 - (uint64_t)v : v;
  return normal(v < 0, std::to_string(u), 0);
}
static std::string word(param::sph_kernel_keyword k) {
  switch(k) {
    case param::cubic_spline: return "cubic_spline";
    case param::quintic_spline: return "quintic_spline";
    case param::wendland_c2: return "wendland_c2";
    case param::wendland_c4: return "wendland_c4";
    case param::wendland_c6: return "wendland_c6";
    case param::gaussian: return "gaussian";
    case param::super_gaussian: return "super_gaussian";
    case param::sinc_ker: return "sinc_ker";
  }
  return "?";
}
static std::string word(param::eos_type_keyword k) {
  switch(k) {
    case param::eos_ideal: return "eos_ideal";
    case param::eos_polytropic: return "eos_polytropic";
    case param::eos_wd: return "eos_wd";
    case param::eos_ppt: return "eos_ppt";
    case param::eos_no_eos: return "eos_no_eos";
  }
  return "?";
}
static std::string word(param::sph_viscosity_keyword k) {
  return k == param::visc_constant ? "visc_constant" : k == param::visc_cullen ? "visc_cullen" : "?";
}
struct Val { std::string n, t, v; };
static std::vector<Val> values() {
  std::vector<Val> o;
#define P_bool(N) o.push_back({#N, "bool", param::N ? "true" : "false"});
#define P_double(N) o.push_back({#N, "double", num((double)param::N)});
#define P_int(N) o.push_back({#N, "int", num((int64_t)param::N)});
#define P_int64(N) o.push_back({#N, "int64", num((int64_t)param::N)});
#define P_ushort(N) o.push_back({#N, "ushort", num((int64_t)param::N)});
#define P_string(N) o.push_back({#N, "string", chars(param::N)});
#define P_word(N) o.push_back({#N, "word", "\"" + word(param::N) + "\""});
#include "param_table.h"
  return o;
}
int main(int argc, char ** argv) {
  uint64_t seed = std::strtoull(argv[1], nullptr, 10);
  std::ifstream in(argv[2]);
  const auto def = values();
  std::string name, path;
  int nr, pol;
  while(in >> name >> nr >> pol >> path) {
    if(sim_tired()) break;
    std::ifstream f(path);
    std::vector<std::string> lines;
    std::set<std::string> names;
    for(std::string s; std::getline(f, s);)
      lines.push_back(s);
    // the names which occur in the file, and as many others
    for(auto & d : def)
      for(auto & s : lines)
        if(s.find(d.n) != std::string::npos)
          names.insert(d.n);
    std::string ty = "[";
    for(auto & d : def)
      if(names.count(d.n))
        ty += (ty.size() > 1 ? "," : "") + J().t("n", d.n).t("t", d.t).str();
    std::ifstream ex(path);
    std::cout << J().t("e", "scenario").t("name", name).i("ranks", nr).b("exists", (bool)ex).raw("types", ty + "]").str() << "\n";
    for(auto & s : lines)
      std::cout << J().t("e", "line").raw("c", chars(s)).str() << "\n";
    SimConfig c;
    c.nranks = nr;
    c.seed = seed + nr;
    c.policy = pol;
    auto r = sim_run(c, [&](int rank) {
      param::mpi_read_params(rank == 0 ? path.c_str() : nullptr);
      auto now = values();
      std::string v = "[", ch = "[";
      for(size_t i = 0; i < now.size(); ++i) {
        if(names.count(now[i].n))
          v += (v.size() > 1 ? "," : "") + J().t("n", now[i].n).raw("v", now[i].v).str();
        if(now[i].v != def[i].v)
          ch += (ch.size() > 1 ? ",\"" : "\"") + now[i].n + "\"";
      }
      sim_log(J().t("e", "rank").i("rank", rank).raw("v", v + "]").raw("changed", ch + "]").str());
    });
    bool stop = r.error.find("exited early with code") != std::string::npos && r.error.find("code 0") == std::string::npos;
    stop = stop || r.error.find("died with signal 6") != std::string::npos;
    bool ok = r.ok && r.leftover == 0 && (int)r.logs.size() == nr;
    std::cout << J().t("e", "end").t("outcome", ok ? "ok" : stop ? "stop" : r.error).str() << "\n";
    if(r.ok)
      for(auto & s : r.logs)
        std::cout << s << "\n";
  }
}
