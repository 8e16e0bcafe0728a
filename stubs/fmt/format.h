// Verification stub of the {fmt} subset VRS uses for data (not logs): "{}", "{:02x}"-style hex, strings, integers, chars, bools.
#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <initializer_list>
#include <limits>
#include <memory>
#include <stdexcept>
#include <vector>
#include <cstdio>
#include <iterator>
#include <string>
#include <string_view>
#include <type_traits>
#define FMT_VERSION 90100
namespace fmt {
namespace vsdetail {
struct Spec { char fill = ' '; int width = 0; char type = 0; char align = 0; int precision = -1; };
inline void pad(std::string& out, const std::string& s, const Spec& sp, bool right) {
  int n = sp.width - (int)s.size();
  if (sp.align == '>') right = true;
  if (sp.align == '<') right = false;
  if (n > 0 && right) out.append((size_t)n, sp.fill);
  out.append(s);
  if (n > 0 && !right) out.append((size_t)n, sp.fill);
}
inline void num(std::string& out, unsigned long long v, bool neg, const Spec& sp) {
  char buf[40]; int p = 40; unsigned base = 10; const char* dig = "0123456789abcdef";
  if (sp.type == 'x') base = 16; else if (sp.type == 'X') { base = 16; dig = "0123456789ABCDEF"; }
  do { buf[--p] = dig[v % base]; v /= base; } while (v != 0);
  if (neg) buf[--p] = '-';
  pad(out, std::string(buf + p, 40 - p), sp, true);
}
template <class T> void put(std::string& out, const T& v, const Spec& sp) {
  if constexpr (std::is_same_v<T, bool>) { pad(out, v ? "true" : "false", sp, false); }
  else if constexpr (std::is_same_v<T, char>) { if (sp.type == 0) pad(out, std::string(1, v), sp, false); else num(out, (unsigned char)v, false, sp); }
  else if constexpr (std::is_enum_v<T>) { put(out, static_cast<std::underlying_type_t<T>>(v), sp); }
  else if constexpr (std::is_integral_v<T>) {
    bool neg = std::is_signed_v<T> && v < 0;
    unsigned long long u = neg ? 0ull - (unsigned long long)(long long)v : (unsigned long long)v;
    num(out, u, neg, sp);
  } else if constexpr (std::is_convertible_v<const T&, std::string_view>) { pad(out, std::string(std::string_view(v)), sp, false); }
  else { out.append("?"); } // floating point & pointers: text not modelled
}
template <class... A> void vformat(std::string& out, std::string_view f, const A&... a) {
  size_t i = 0;
  auto lit = [&]() -> bool { // copies literal text; true if stopped at an argument
    while (i < f.size()) {
      char c = f[i];
      if (c == '{') { if (i + 1 < f.size() && f[i + 1] == '{') { out.push_back('{'); i += 2; continue; } return true; }
      if (c == '}' && i + 1 < f.size() && f[i + 1] == '}') { out.push_back('}'); i += 2; continue; }
      out.push_back(c); ++i;
    }
    return false;
  };
  auto one = [&](const auto& v) {
    if (!lit()) return;
    ++i; Spec sp;
    if (i < f.size() && f[i] == ':') {
      ++i;
      if (i + 1 < f.size() && (f[i + 1] == '<' || f[i + 1] == '>')) { sp.fill = f[i]; sp.align = f[i + 1]; i += 2; }
      else if (i < f.size() && (f[i] == '<' || f[i] == '>')) { sp.align = f[i]; ++i; }
      if (i < f.size() && f[i] == '0') { sp.fill = '0'; ++i; }
      while (i < f.size() && f[i] >= '0' && f[i] <= '9') sp.width = sp.width * 10 + (f[i++] - '0');
      if (i < f.size() && f[i] == '.') { ++i; sp.precision = 0; while (i < f.size() && f[i] >= '0' && f[i] <= '9') sp.precision = sp.precision * 10 + (f[i++] - '0'); }
      if (i < f.size() && f[i] != '}') sp.type = f[i++];
    }
    while (i < f.size() && f[i] != '}') ++i;
    ++i;
    put(out, v, sp);
  };
  (one(a), ...);
  lit();
}
template <class T> decltype(auto) conv(const T& v) {
  if constexpr (std::is_array_v<T> || std::is_same_v<std::decay_t<T>, const char*> || std::is_same_v<std::decay_t<T>, char*>) return std::string_view(v);
  else return (v);
}
}
template <class... A> std::string format(std::string_view f, const A&... a) { std::string s; vsdetail::vformat(s, f, vsdetail::conv(a)...); return s; }
template <class It, class... A> It format_to(It it, std::string_view f, const A&... a) {
  std::string s; vsdetail::vformat(s, f, vsdetail::conv(a)...);
  for (char c : s) *it++ = c;
  return it;
}
template <class... A> void print(const A&...) {}
}
