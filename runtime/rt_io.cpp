// Bitcode-only: string streams. The stream templates come from the library's headers; locale-dependent members are replaced.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <istream>
#include <iostream>
#include <ostream>
#include <sstream>
#include <string>
#include "../harness/vs.h"
namespace std {
locale::locale() noexcept : _M_impl(nullptr) {}
locale::locale(const locale&) noexcept : _M_impl(nullptr) {}
locale::~locale() noexcept {}
const locale& locale::operator=(const locale&) noexcept { return *this; }
size_t locale::id::_M_id() const noexcept { return 0; }
ios_base::ios_base() noexcept : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(nullptr), _M_word_zero(), _M_word_size(8), _M_word(nullptr), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() noexcept { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
template <> void basic_ios<char>::_M_cache_locale(const locale&) { _M_ctype = nullptr; _M_num_put = nullptr; _M_num_get = nullptr; }
template <> void basic_ios<char>::clear(iostate s) { _M_streambuf_state = this->rdbuf() ? s : s | badbit; }
template <> char basic_ios<char>::fill() const { return ' '; }
template <> char basic_ios<char>::widen(char c) const { return c; }
template <> char basic_ios<char>::narrow(char c, char) const { return c; }
static bool terminal(ostream& o) { return &o == &cerr || &o == &cout; } // never constructed here: nothing is printed
static void putn(ostream& o, const char* s, size_t n) { if (terminal(o)) return; for (size_t i = 0; i < n; ++i) o.rdbuf()->sputc(s[i]); }
template <> ostream& __ostream_insert(ostream& o, const char* s, streamsize n) { putn(o, s, (size_t)n); return o; }
static void num(ostream& o, unsigned long long v, bool neg) {
  char b[24]; int p = 24; unsigned base = (o.flags() & ios_base::hex) ? 16 : 10;
  do { b[--p] = "0123456789abcdef"[v % base]; v /= base; } while (v); if (neg) b[--p] = '-'; putn(o, b + p, 24 - p); }
template <> template <> ostream& basic_ostream<char>::_M_insert(long v) { num(*this, v < 0 ? 0ull - (unsigned long long)v : (unsigned long long)v, v < 0); return *this; }
template <> template <> ostream& basic_ostream<char>::_M_insert(unsigned long v) { num(*this, v, false); return *this; }
template <> template <> ostream& basic_ostream<char>::_M_insert(long long v) { num(*this, v < 0 ? 0ull - (unsigned long long)v : (unsigned long long)v, v < 0); return *this; }
template <> template <> ostream& basic_ostream<char>::_M_insert(unsigned long long v) { num(*this, v, false); return *this; }
template <> template <> ostream& basic_ostream<char>::_M_insert(bool v) { num(*this, v, false); return *this; }
template <> template <> ostream& basic_ostream<char>::_M_insert(double) { putn(*this, "?", 1); return *this; } // text of floats not modelled
template <> ostream& basic_ostream<char>::operator<<(int v) { return _M_insert((long)v); }
template <> ostream& basic_ostream<char>::operator<<(short v) { return _M_insert((long)v); }
template <> ostream& basic_ostream<char>::put(char c) { if (terminal(*this)) return *this; this->rdbuf()->sputc(c); return *this; }
template <> ostream& basic_ostream<char>::flush() { return *this; }
template <> basic_ostream<char>::sentry::sentry(ostream& o) : _M_ok(true), _M_os(o) {}
template <> basic_ostream<char>::sentry::~sentry() {}
static int pk(istream& i) { int c = i.rdbuf()->sgetc(); return c; }
static bool sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool pre(istream& i, bool ws) {
  if (!i.good()) { i.setstate(ios_base::failbit); return false; }
  if (ws) { while (sp(pk(i))) i.rdbuf()->sbumpc(); if (pk(i) == -1) { i.setstate(ios_base::eofbit | ios_base::failbit); return false; } }
  return true;
}
template <> istream& getline(istream& i, string& s, char d) {
  if (!pre(i, false)) return i;
  s.erase(); bool any = false;
  for (;;) { int c = i.rdbuf()->sbumpc(); if (c == -1) { i.setstate(any ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit); break; } any = true; if ((char)c == d) break; s.push_back((char)c); }
  return i;
}
template <> istream& operator>>(istream& i, string& s) {
  if (!pre(i, true)) return i;
  s.erase();
  for (;;) { int c = pk(i); if (c == -1) { i.setstate(ios_base::eofbit); break; } if (sp(c)) break; s.push_back((char)c); i.rdbuf()->sbumpc(); }
  return i;
}
template <> istream& basic_istream<char>::operator>>(int& v) {
  if (!pre(*this, true)) { v = 0; return *this; }
  long long r = 0; bool neg = false, any = false, ovf = false; int c = pk(*this);
  if (c == '-' || c == '+') { neg = c == '-'; rdbuf()->sbumpc(); }
  for (;;) { c = pk(*this); if (c == -1) { setstate(eofbit); break; } if (c < '0' || c > '9') break; any = true; r = r * 10 + (c - '0'); if (r > 0x80000000ll) { ovf = true; r = 0x80000000ll; } rdbuf()->sbumpc(); }
  if (neg) r = -r;
  if (!any) { v = 0; setstate(failbit); }
  else if (ovf || r > 0x7fffffff || r < -0x80000000ll) { v = neg ? (int)0x80000000 : 0x7fffffff; setstate(failbit); }
  else v = (int)r;
  return *this;
}
template <> int basic_istream<char>::peek() { int c = pk(*this); if (c == -1) setstate(eofbit); return c; }
template <> istream& basic_istream<char>::ignore() { if (rdbuf()->sbumpc() == -1) setstate(eofbit); return *this; }
template class basic_stringbuf<char>;
template class basic_istringstream<char>;
template class basic_ostringstream<char>;
template class basic_stringstream<char>;
// cout and cerr exist but nothing is ever written by the code under test except messages
}
