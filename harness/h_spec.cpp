// C20: what a file is, in text: paths, uris and json.
#include "vsvrs.h"
#include <vrs/FileSpec.h>
#include <vrs/FileHandler.h>
using namespace vrs;
namespace {
string symText(int n, const char* name, bool zero = false) { string s; for (int i = 0; i < n; ++i) { char c = (char)vs_u8(name); if (!zero) vs_assume(c != 0); s += c; } return s; }
// A view of exactly these bytes: reading past it is caught
struct Exact { char* p; size_t n; explicit Exact(const string& s) : p((char*)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); } ~Exact() { free(p); } operator std::string_view() const { return {p, n}; } };
void same(const FileSpec& a, const FileSpec& b) {
  vs_assert(a.fileHandlerName == b.fileHandlerName, "the storage comes back"); vs_assert(a.fileName == b.fileName, "the file name comes back"); vs_assert(a.uri == b.uri, "the uri comes back");
  vs_assert(a.chunks == b.chunks, "the chunks come back"); vs_assert(a.chunkSizes == b.chunkSizes, "the sizes of the chunks come back"); vs_assert(a.extras == b.extras, "the extra parameters come back");
  vs_assert(a == b, "the description comes back");
}
void useAll(const FileSpec& s) {
  FileSpec t;
  s.toPathJsonUri(); s.getSourceLocation(); s.getEasyPath(); s.getFileName(); s.hasChunkSizes(); s.isDiskFile(); s.getExtraAsInt("a"); s.getExtraAsUInt64("a"); s.getExtraAsBool("a"); s.getXXHash();
}
}
VS_ENTRY(h_spec_json) {
  FileSpec s; int which = (int)vs_choose(7, "field"); int shape = (int)vs_choose(3, "shape"); constexpr int L = TIER(2, 3);
  s.fileHandlerName = which == 0 ? symText(L, "storage") : shape ? "store" : "";
  if (which == 1 || shape == 2) s.fileName = which == 1 ? symText(L, "name") : "f\"1";
  if (which == 2) s.uri = symText(L, "uri");
  int n = which == 3 && !shape ? 1 : shape;
  for (int i = 0; i < n; ++i) s.chunks.push_back(which == 3 && i == n - 1 ? symText(L, "chunk") : i ? "/b\\c" : "");
  int k = which == 6 && !shape ? 1 : shape; static const int64_t sizes[] = {0, -1, INT64_MAX, INT64_MIN, (int64_t)1 << 32, 4294967295ll, -2147483649ll};
  for (int i = 0; i < k; ++i) s.chunkSizes.push_back(which == 6 && !i ? sizes[vs_choose(7, "size")] : 17);
  if (which == 4) { string e = symText(L, "key"); s.extras[e] = "v"; }
  if (which == 5) s.extras["key"] = symText(L, "value");
  if (shape) s.setExtra("more", "");
  FileSpec r; r.chunks = {"old"}; r.chunkSizes = {5}; r.extras["old"] = "x"; r.uri = "old"; r.fileName = "old";
  string j = s.toJson();
  vs_assert(r.fromJson(j), "the text of a description is understood");
  same(r, s);
  FileSpec p; vs_assert(p.fromPathJsonUri(j) == SUCCESS, "the text of a description is understood as such");
  same(p, s);
  vs_reach("json");
}
// A local path, whatever its characters, names that one file.
VS_ENTRY(h_spec_path) {
  int n = 1 + (int)vs_choose(TIER(4, 5), "size"); string s = symText(n, "c");
  vs_assume(s[0] != '{'); for (int i = 0; i < n; ++i) { vs_assume(s[i] != '?'); if (i > 1) vs_assume(s[i] != ':'); }
  Exact v(s); FileSpec f; f.chunks = {"a", "b"}; f.extras["x"] = "y";
  vs_assert(f.fromPathJsonUri(v) == SUCCESS, "a path is accepted");
  vs_assert(f.isDiskFile() && f.chunks.size() == 1 && f.chunks[0] == s && f.extras.empty() && f.uri.empty() && f.chunkSizes.empty(), "a path names a local file, and only that");
  vs_assert(f.toPathJsonUri() == s, "the path comes back");
  vs_assert(f.getEasyPath() == s, "the path is shown as it is");
  vs_reach("path");
}
// scheme:path?key=value&key=value, with any characters escaped or not.
VS_ENTRY(h_spec_uri) {
  string scheme = "s"; { char c = (char)vs_u8("scheme"); vs_assume((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '+' || c == '.' || c == '-' || c == '_'); scheme += c; }
  static const char* hex = "0123456789abcdef"; static const char* HEX = "0123456789ABCDEF";
  auto put = [&](string& out, unsigned char c, bool esc, bool upper) { if (esc) { const char* h = upper ? HEX : hex; out += '%'; out += h[c >> 4]; out += h[c & 15]; } else out += (char)c; };
  auto plain = [](unsigned char c, bool query) { return c >= 0x20 && c != '?' && c != '%' && c != ':' && (!query || (c != '&' && c != ';' && c != '=')); };
  int where = (int)vs_choose(3, "where"); bool esc = vs_choose(2, "escape"), upper = esc && vs_choose(2, "upper");
  unsigned char c = (unsigned char)vs_u8("c"); vs_assume(c >= 0x20); if (!esc) vs_assume(plain(c, where != 0));
  string path = "/p", key = "k", value = "v", upath = path, ukey = key, uvalue = value;
  if (where == 0) { path += (char)c; put(upath, c, esc, upper); } else if (where == 1) { key += (char)c; put(ukey, c, esc, upper); } else { value += (char)c; put(uvalue, c, esc, upper); }
  path += "/q"; upath += "/q";
  int q = (int)vs_choose(4, "query");
  string u = scheme + ":" + upath; FileSpec::Extras ex;
  if (q) { u += "?" + ukey + "=" + uvalue; ex[key] = value; }
  if (q == 2) { u += vs_choose(2, "sep") ? "&" : ";"; u += "z=y"; ex["z"] = "y"; }
  if (q == 3) { u += "&bad&z=y"; ex["z"] = "y"; }
  FileSpec f; vs_assert(f.fromPathJsonUri(Exact(u)) == SUCCESS, "a uri is accepted");
  vs_assert(f.fileHandlerName == scheme, "the scheme of a uri is its storage");
  vs_assert(f.chunks.size() == 1 && f.chunks[0] == path, "the path of a uri is decoded");
  vs_assert(f.extras == ex, "the parameters of a uri are decoded");
  vs_assert(f.uri == u && f.toPathJsonUri() == u, "the uri comes back");
  string loc = f.getSourceLocation(); vs_assert(u.compare(0, loc.size(), loc) == 0 && loc.size() > scheme.size(), "the location of a file is how its uri starts");
  vs_reach("uri");
}
// Any text at all.
VS_ENTRY(h_spec_any) {
  int n = (int)vs_choose(TIER(6, 7), "size"); string s = symText(n, "c", true);
  FileSpec f; int e = f.fromPathJsonUri(Exact(s)); useAll(f);
  if (!n) vs_assert(e != 0, "no text describes no file");
  // a uri that ends early, in a buffer of its own size
  { string u = "scheme_of_a_file:" + s; FileSpec g; g.fileHandlerName = "other"; g.uri = string(u.data(), u.size()); g.uri.shrink_to_fit(); string loc = g.getSourceLocation(); vs_assert(u.compare(0, loc.size(), loc) == 0, "the location of a file is how its uri starts"); }
  if (e == 0) { if (f.isDiskFile()) vs_reach("disk"); else vs_reach("uri"); } else vs_reach("refused");
}
VS_ENTRY(h_spec_anyjson) {
  static const char* parts[] = {"{", "}", "[", "]", ":", ",", "\"chunks\"", "\"chunk_sizes\"", "\"storage\"", "\"a\"", "1", "-9223372036854775808", "1e99", "null", "\"\\u", "\\"};
  string s = "{"; int n = TIER(3, 4);
  if (vs_choose(2, "how")) s += symText(TIER(4, 5), "c", true); else for (int i = 0; i < n; ++i) s += parts[vs_choose(16, "part")];
  if (vs_choose(2, "close")) s += "}";
  FileSpec f; bool ok = f.fromJson(Exact(s)); useAll(f);
  if (ok) vs_reach("understood"); else { vs_assert(f.empty(), "text that isn't understood leaves nothing behind"); vs_reach("refused"); }
}
