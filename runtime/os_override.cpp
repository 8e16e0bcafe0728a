// The path and directory helpers of vrs::os on top of the in-memory file system ('/' separated names).
#include <string>
#include <vector>
#include <vrs/os/Utils.h>
#include "memfs.h"
extern "C" int vsfs_isdir(const char*);
extern "C" const char* vsfs_link(const char*);
extern "C" const char* vsfs_name(int);
using std::string;
namespace vrs { namespace os {
static string strip(string p) { while (p.size() > 1 && p.back() == '/') p.pop_back(); return p; }
string pathJoin(const string& a, const string& b) {
  if (a.empty()) return b;
  size_t k = 0; while (k < b.size() && (b[k] == '/' || b[k] == '\\')) ++k;
  return a.back() == '/' ? a + b.substr(k) : a + "/" + b.substr(k);
}
string pathJoin(const string& a, const string& b, const string& c) { return pathJoin(pathJoin(a, b), c); }
bool isDir(const string& p) { return p.empty() ? false : vsfs_isdir(strip(p).c_str()); }
bool isFile(const string& p) { return vsfs_exists(p.c_str()) && !vsfs_isdir(p.c_str()); }
bool pathExists(const string& p) { return vsfs_exists(strip(p).c_str()); }
int64_t getFileSize(const string& p) { return isFile(p) ? vsfs_size(p.c_str()) : -1; }
string getFilename(const string& p) { size_t k = p.rfind('/'); return k == string::npos ? p : p.substr(k + 1); }
string getParentFolder(const string& p) { size_t k = p.rfind('/'); return k == string::npos ? string() : k == 0 ? string("/") : p.substr(0, k); }
int makeDir(const string& d) { vsfs_mkdir(strip(d).c_str()); return 0; }
int makeDirectories(const string& d) { vsfs_mkdir(strip(d).c_str()); return 0; }
std::vector<string> listDir(const string& d) {
  std::vector<string> r; string pre = strip(d) + "/";
  for (int i = 0; vsfs_name(i); ++i) { string n = vsfs_name(i); if (n.size() > pre.size() && n.compare(0, pre.size(), pre) == 0 && n.find('/', pre.size()) == string::npos) r.push_back(n); }
  return r;
}
bool getLinkedTarget(const string& p, string& out) { const char* l = vsfs_link(p.c_str()); out = l ? l : p; return l != nullptr; }
const string& getTempFolder() { static string s("/tmp/"); return s; }
const string& getOsTempFolder() { static string s("/tmp/"); return s; }
const string& getHomeFolder() { static string s("/home/"); return s; }
string randomName(int length) { static int k = 0; string s((size_t)length, 'r'); if (length > 0) s[0] = (char)('a' + (k++ % 26)); return s; }
string getUniquePath(const string& base, size_t n) { return base + randomName((int)n); }
string getCurrentExecutablePath() { return "/bin/vs"; }
} }
