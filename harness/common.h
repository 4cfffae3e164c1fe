// Shared by the harnesses: scenario reading, JSON writing.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace hc {
struct J { // tiny JSON object writer
  std::string s = "{";
  bool first = true;
  void key(const char * k) {
    if(!first)
      s += ",";
    first = false;
    s += "\"";
    s += k;
    s += "\":";
  }
  J & i(const char * k, long long v) { key(k); s += std::to_string(v); return *this; }
  J & b(const char * k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
  J & t(const char * k, const std::string & v) {
    key(k);
    s += "\"";
    for(char c : v)
      if(c == '"' || c == '\\') { s += '\\'; s += c; }
      else if((unsigned char)c < 32) s += ' ';
      else s += c;
    s += "\"";
    return *this;
  }
  template<class V>
  J & a(const char * k, const V & v) {
    key(k);
    s += "[";
    bool f = true;
    for(auto x : v) { if(!f) s += ","; f = false; s += std::to_string((long long)x); }
    s += "]";
    return *this;
  }
  J & raw(const char * k, const std::string & v) { key(k); s += v; return *this; }
  std::string str() const { return s + "}"; }
};
// a double known to be an integer (multiple of 1/scale): -999999999 when it is not
inline long long asint(double v, double scale = 1., double tol = 1e-6) {
  double w = v * scale;
  if(!(std::fabs(w) < 1e9))
    return -999999999;
  double r = std::round(w);
  return std::fabs(w - r) <= tol ? (long long)r : -999999999;
}
// fixed point with saturation (TLC integers are 32 bit)
inline long long fix(double v, double scale) {
  double w = v * scale;
  if(std::isnan(w))
    return -1000000001;
  if(w > 1e9) return 1000000000;
  if(w < -1e9) return -1000000000;
  return (long long)std::llround(w);
}
} // namespace hc
