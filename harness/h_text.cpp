// C29: values, lists and file names in text.
#include "vsvrs.h"
#include <vrs/helpers/Strings.h>
using namespace vrs;
using namespace vrs::helpers;
namespace {
string anyText(int n, const char* name, bool zero = true) { string s; for (int i = 0; i < n; ++i) { char c = (char)vs_u8(name); if (!zero) vs_assume(c != 0); s += c; } return s; }
// A view of exactly these bytes: reading past it is caught
struct Exact { char* p; size_t n; explicit Exact(const string& s) : p((char*)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); } ~Exact() { free(p); } operator std::string_view() const { return {p, n}; } };
bool digit(char c) { return c >= '0' && c <= '9'; }
char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
// The number text starts with: false if none or if above max
bool number(const string& s, size_t& end, uint64_t& v, uint64_t max = UINT64_MAX) { v = 0; end = 0; while (end < s.size() && digit(s[end])) { uint64_t d = s[end] - '0'; if (v > max / 10 || v * 10 > max - d) return false; v = v * 10 + d; ++end; } return end > 0; }
bool equalNoCase(const string& s, const char* t) { size_t n = strlen(t); if (s.size() != n) return false; for (size_t k = 0; k < n; ++k) if (low(s[k]) != t[k]) return false; return true; }
template <class T> bool integer(const string& s, T& v) {
  bool neg = !s.empty() && s[0] == '-' && std::is_signed<T>::value; size_t end; uint64_t u;
  if (!number(neg ? s.substr(1) : s, end, u, (uint64_t)std::numeric_limits<T>::max() + (neg ? 1 : 0)) || end + neg != s.size()) return false;
  v = neg ? (T)(0 - u) : (T)u; return true;
}
void numbers(const string& s) {
  int i = 77, ri; int64_t l = 77, rl; uint64_t u = 77, ru; Exact e(s);
  bool oi = integer(s, ri), ol = integer(s, rl), ou = integer(s, ru);
  vs_assert(readInt(e, i) == oi && (!oi || i == ri), "a number is read as it is, or refused");
  vs_assert(readInt64(e, l) == ol && (!ol || l == rl), "a large number is read as it is, or refused");
  vs_assert(readUInt64(e, u) == ou && (ou ? u == ru : u == 0), "a positive number is read as it is, or refused");
  StringStringMap m; m["a"] = s; i = 77; l = 77; u = 77;
  vs_assert(getInt(m, "a", i) == oi && (!oi || i == ri) && getInt64(m, "a", l) == ol && (!ol || l == rl) && getUInt64(m, "a", u) == ou && (!ou || u == ru), "a field is read as the number it is, or refused");
  i = 77; vs_assert(!getInt(m, "b", i) && !getInt64(m, "b", l) && !getUInt64(m, "b", u) && i == 77, "no field is no number");
  if (ol) vs_reach("number"); else vs_reach("refused");
}
void sizes(const string& s) {
  uint64_t v = 77, n; size_t end; bool ok = number(s, end, n); int shift = 0;
  if (ok && end < s.size()) {
    if (end + 1 == s.size()) ok = low(s[end]) == 'b';
    else { char c = low(s[end]); shift = c == 'k' ? 10 : c == 'm' ? 20 : c == 'g' ? 30 : c == 't' ? 40 : c == 'e' ? 50 : 0; ok = shift && end + 2 == s.size() && low(s[end + 1]) == 'b'; }
  }
  if (ok && shift && (n >> (64 - shift))) ok = false;
  bool got = readByteSize(Exact(s), v); vs_assert(got == ok, "a size is understood, or refused"); vs_assert(v == (ok ? n << shift : 0), "a size is the size said, or zero");
  StringStringMap m; m["a"] = s; v = 77; vs_assert(getByteSize(m, "a", v) == ok && v == (ok ? n << shift : 0), "a field is the size said, or zero");
  v = 77; vs_assert(!getByteSize(m, "b", v) && v == 0, "no field is no size");
  if (ok) vs_reach(shift ? "units" : "bytes"); else vs_reach("refused");
}
// What comes first: numbers by value, other characters as they are
int order(const string& a, const string& b) {
  size_t i = 0, j = 0;
  while (i < a.size() && j < b.size()) {
    if (digit(a[i]) && digit(b[j])) { size_t e; uint64_t x, y; number(a.substr(i), e, x); i += e; number(b.substr(j), e, y); j += e; if (x != y) return x < y ? -1 : 1; }
    else { if (a[i] != b[j]) return 2; ++i; ++j; }
  }
  return i < a.size() ? 1 : j < b.size() ? -1 : 0;
}
}
VS_ENTRY(h_text_number) { numbers(anyText((int)vs_choose(TIER(6, 7), "size"), "c")); }
VS_ENTRY(h_text_limits) {
  static const char* head[] = {"214748364", "-214748364", "429496729", "922337203685477580", "-922337203685477580", "1844674407370955161", "000000000000000000000", "99999999999999999999"};
  numbers(head[vs_choose(8, "head")] + anyText((int)vs_choose(3, "more"), "c"));
}
VS_ENTRY(h_text_size) { sizes(anyText((int)vs_choose(TIER(6, 7), "size"), "c")); }
VS_ENTRY(h_text_sizelimits) {
  static const char* head[] = {"1638", "1677721", "1717986918", "1759218604441", "1801439850948198", "1844674407370955161"}; static const char* unit[] = {"", "b", "Kb", "mB", "GB", "tb", "EB", "PB", "kbx", "K"};
  string s = head[vs_choose(6, "head")]; s += anyText((int)vs_choose(3, "more"), "c"); sizes(s + unit[vs_choose(10, "unit")]);
}
VS_ENTRY(h_text_bool) {
  static const char* words[] = {"false", "off", "no", "0", "true", "on", "yes", "1"}; string s = words[vs_choose(8, "word")]; size_t at = vs_choose(s.size() + 1, "at"), how = vs_choose(3, "change");
  if (how == 1 && at < s.size()) s[at] = (char)vs_u8("c"); else if (how == 2) s.insert(at, 1, (char)vs_u8("c"));
  for (char c : s) vs_assume(c != 0);
  bool v = false; vs_assert(readBool(Exact(s), v), "any word is yes or no"); bool no = s == "0" || equalNoCase(s, "false") || equalNoCase(s, "off") || equalNoCase(s, "no");
  vs_assert(v == !no, "yes or no is what the word says"); vs_assert(!readBool(std::string_view(), v), "no word is neither");
  StringStringMap m; m["a"] = s; bool w = no; vs_assert(getBool(m, "a", w) && w == !no && !getBool(m, "b", w), "a field is yes or no"); vs_reach(no ? "no" : "yes");
}
VS_ENTRY(h_text_next) {
  string s = (vs_choose(2, "long") ? "42949672" : "") + anyText(TIER(4, 5), "c"); const char* p = s.c_str(); uint32_t v = 77; uint64_t n; string z(s.c_str()); size_t end; bool ok = number(z, end, n, UINT32_MAX);
  bool got = parseNextUInt32(p, v); vs_assert(got == ok && p == s.c_str() + (ok ? end : 0) && (!ok || v == n), "the next number is read, and only it"); vs_reach(ok ? "number" : "none");
}
VS_ENTRY(h_text_split) {
  string s = anyText((int)vs_choose(TIER(7, 8), "size"), "c", false); bool skip = vs_choose(2, "skip"), trims = vs_choose(2, "trim"); std::vector<string> t = {"old"}, want; std::vector<std::string_view> w = {"old"};
  string cur; for (size_t k = 0; k <= s.size(); ++k) { if (k < s.size() && s[k] != ',') { cur += s[k]; continue; } if (trims) { while (!cur.empty() && (cur[0] == ' ' || cur[0] == '\t')) cur.erase(0, 1); while (!cur.empty() && (cur.back() == ' ' || cur.back() == '\t')) cur.pop_back(); } if (!skip || !cur.empty()) want.push_back(cur); cur.clear(); }
  size_t n = splitViews(s, ',', w, skip, trims ? " \t" : nullptr); bool ok = n == w.size() && w.size() == want.size(); for (size_t k = 0; ok && k < want.size(); ++k) ok = w[k] == want[k] && (w[k].empty() || (w[k].data() >= s.data() && w[k].data() + w[k].size() <= s.data() + s.size()));
  vs_assert(ok, "text is split into all its parts, in place");
  // nothing after the last delimiter is no part here
  size_t m = split(s, ',', t, skip, trims ? " \t" : nullptr); if ((s.empty() || s.back() == ',') && !want.empty() && want.back().empty()) want.pop_back();
  vs_assert(m == t.size() && t == want, "text is split into all its parts"); vs_reach(want.size() > 1 ? "parts" : "one");
}
VS_ENTRY(h_text_trim) {
  string s = anyText((int)vs_choose(TIER(6, 8), "size"), "c", false); size_t a = 0, b = s.size(); while (a < b && (s[a] == ' ' || s[a] == '\t')) ++a; while (b > a && (s[b - 1] == ' ' || s[b - 1] == '\t')) --b;
  vs_assert(trim(s) == s.substr(a, b - a), "text is trimmed"); Exact e(s); std::string_view v = trimView(e); vs_assert(v == s.substr(a, b - a), "a view of text is trimmed"); vs_reach("trim");
}
VS_ENTRY(h_text_replace) {
  string s = anyText((int)vs_choose(TIER(6, 7), "size"), "c"), t = anyText((int)vs_choose(3, "token size"), "t"), r; switch (vs_choose(4, "by")) { case 1: r = "x"; break; case 2: r = t + t; break; case 3: r = "(" + t + ")"; break; }
  string want; bool any = false; for (size_t k = 0; k < s.size();) { if (!t.empty() && s.compare(k, t.size(), t) == 0) { want += r; k += t.size(); any = true; } else want += s[k++]; }
  string got = s; bool did = replaceAll(got, t, r); vs_assert(did == any && got == want, "each occurrence is replaced once"); if (did) vs_reach("replaced"); else vs_reach("none");
}
VS_ENTRY(h_text_case) {
  string s = anyText((int)vs_choose(TIER(4, 5), "size"), "c", false), t = anyText((int)vs_choose(3, "other size"), "t", false); Exact es(s), et(t);
  auto same = [](const string& a, const string& b) { if (a.size() != b.size()) return false; for (size_t k = 0; k < a.size(); ++k) if (low(a[k]) != low(b[k])) return false; return true; };
  bool st = s.size() >= t.size() && same(s.substr(0, t.size()), t), en = s.size() >= t.size() && same(s.substr(s.size() - t.size()), t);
  vs_assert(startsWith(es, et) == st, "how text starts"); vs_assert(endsWith(es, et) == en, "how text ends");
  int c = helpers::strcasecmp(std::string_view(es), std::string_view(et)), d = helpers::strcasecmp(std::string_view(et), std::string_view(es)); vs_assert((c == 0) == same(s, t) && (c < 0) == (d > 0), "text is compared whatever its case");
  vs_reach("case");
}
// File names are ordered: numbers by value, and the order is one.
VS_ENTRY(h_text_names) {
  int n = (int)vs_choose(TIER(5, 6), "size"), m = (int)vs_choose(TIER(5, 5), "other size"); string a = anyText(n, "a", false), b = anyText(m, "b", false);
  bool ab = beforeFileName(a.c_str(), b.c_str()), ba = beforeFileName(b.c_str(), a.c_str()); int o = order(a, b);
  vs_assert(!(ab && ba), "of two names, one is first"); vs_assert(!beforeFileName(a.c_str(), a.c_str()), "no name is before itself");
  if (o == 2) vs_assert(ab || ba, "different names are in some order"); else vs_assert(ab == (o < 0) && ba == (o > 0), "numbers in names are in order");
  if (o < 0) vs_reach("before"); else if (o == 0) vs_reach("same");
}
VS_ENTRY(h_text_sorted) {
  string s[3]; for (auto& x : s) { x = anyText(TIER(2, 3), "n", false); if (vs_choose(2, "0")) x = "0" + x; }
  bool b01 = beforeFileName(s[0].c_str(), s[1].c_str()), b12 = beforeFileName(s[1].c_str(), s[2].c_str()), b02 = beforeFileName(s[0].c_str(), s[2].c_str());
  bool b10 = beforeFileName(s[1].c_str(), s[0].c_str()), b21 = beforeFileName(s[2].c_str(), s[1].c_str()), b20 = beforeFileName(s[2].c_str(), s[0].c_str());
  if (b01 && b12) vs_assert(b02, "names before one another are in order"); if (!b01 && !b10 && !b12 && !b21) vs_assert(!b02 && !b20, "equivalent names are equivalent"); vs_reach("sorted");
}
