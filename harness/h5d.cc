// Independent reader of snapshot files.
//   h5d dump FILE...            one JSON line per file
//   h5d strip FILE STEP NAME    removes a dataset
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include <map>
#include <algorithm>
#include <hdf5.h>
static std::string hex(double v) {
  if(v == 0.) v = 0.;
  char b[40];
  unsigned long u;
  memcpy(&u, &v, 8);
  sprintf(b, "%lx", u);
  return b;
}
static herr_t each(hid_t, const char * n, const H5L_info_t *, void * p) { ((std::vector<std::string> *)p)->push_back(n); return 0; }
static std::string attr(hid_t g, const char * n, bool real) {
  if(H5Aexists(g, n) <= 0) return "\"none\"";
  hid_t a = H5Aopen(g, n, H5P_DEFAULT);
  std::string s;
  if(real) { double v = 0; H5Aread(a, H5T_NATIVE_DOUBLE, &v); s = "\"" + hex(v) + "\""; }
  else { long long v = 0; H5Aread(a, H5T_NATIVE_LLONG, &v); s = std::to_string(v); }
  H5Aclose(a);
  return s;
}
int main(int c, char ** v) {
  H5Eset_auto(H5E_DEFAULT, NULL, NULL);
  if(c > 4 && !strcmp(v[1], "strip")) {
    hid_t f = H5Fopen(v[2], H5F_ACC_RDWR, H5P_DEFAULT);
    if(f < 0) return 1;
    int r = H5Ldelete(f, ("/Step#" + std::string(v[3]) + "/" + v[4]).c_str(), H5P_DEFAULT);
    H5Fclose(f);
    return r < 0;
  }
  for(int i = 2; i < c; ++i) {
    hid_t f = H5Fopen(v[i], H5F_ACC_RDONLY, H5P_DEFAULT);
    printf("{\"file\":\"%s\"", v[i]);
    if(f < 0) { printf(",\"h5\":false}\n"); continue; }
    std::vector<std::string> gs;
    H5Literate(f, H5_INDEX_NAME, H5_ITER_INC, NULL, each, &gs);
    printf(",\"h5\":true,\"dim\":%s,\"steps\":[", attr(f, "dimension", false).c_str());
    bool first = true;
    std::sort(gs.begin(), gs.end(), [](auto & a, auto & b) { return a.size() != b.size() ? a.size() < b.size() : a < b; });
    for(auto & gn : gs) {
      if(gn.compare(0, 5, "Step#")) continue;
      hid_t g = H5Gopen(f, gn.c_str(), H5P_DEFAULT);
      printf("%s{\"s\":%s,\"t\":%s,\"it\":%s,\"dt\":%s,", first ? "" : ",", gn.c_str() + 5, attr(g, "time", true).c_str(), attr(g, "iteration", false).c_str(), attr(g, "timestep", true).c_str());
      first = false;
      std::vector<std::string> ds;
      H5Literate(g, H5_INDEX_NAME, H5_ITER_INC, NULL, each, &ds);
      std::map<std::string, std::vector<std::string>> col;
      size_t n = 0;
      for(auto & d : ds) {
        hid_t h = H5Dopen(g, d.c_str(), H5P_DEFAULT), sp = H5Dget_space(h), ty = H5Dget_type(h);
        hsize_t m = 0;
        H5Sget_simple_extent_dims(sp, &m, NULL);
        n = std::max<size_t>(n, m);
        auto & o = col[d];
        if(H5Tget_class(ty) == H5T_FLOAT) {
          std::vector<double> b(m + 1);
          H5Dread(h, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data());
          for(size_t k = 0; k < m; ++k) o.push_back(hex(b[k]));
        }
        else {
          std::vector<long long> b(m + 1);
          H5Dread(h, H5T_NATIVE_LLONG, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data());
          for(size_t k = 0; k < m; ++k) o.push_back(std::to_string(b[k]));
        }
        H5Tclose(ty); H5Sclose(sp); H5Dclose(h);
      }
      auto get = [&](const char * nm, size_t k) { auto & o = col[nm]; return k < o.size() ? o[k] : std::string("none"); };
      auto num = [&](const char * nm, size_t k) { auto s = get(nm, k); return s == "none" ? "-1" : s; };
      printf("\"p\":[");
      for(size_t k = 0; k < n; ++k) {
        printf("%s[\"%s\",%s,%s", k ? "," : "", get("id", k).c_str(), num("type", k).c_str(), num("state", k).c_str());
        printf(",\"%s,%s,%s\"", get("x", k).c_str(), get("y", k).c_str(), get("z", k).c_str());
        printf(",\"%s,%s,%s\"", get("vx", k).c_str(), get("vy", k).c_str(), get("vz", k).c_str());
        for(auto nm : {"m", "rho", "h", "P", "u", "dt"}) printf(",\"%s\"", get(nm, k).c_str());
        printf(",\"%s,%s,%s\"", get("ax", k).c_str(), get("ay", k).c_str(), get("az", k).c_str());
        for(auto nm : {"gradV", "traceSS", "alpha", "divergenceV", "dDivVdt", "trigger", "xi"}) printf(",\"%s\"", get(nm, k).c_str());
        printf(",%s]", num("neighbors", k).c_str());
      }
      printf("]}");
      H5Gclose(g);
    }
    printf("]}\n");
    H5Fclose(f);
  }
}
