// vsym driver: explores every path of one harness function, in parallel worker processes.
#include "vm.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Constants.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <poll.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <signal.h>
#include <sys/prctl.h>
using namespace llvm;

struct Shared { std::atomic<int> hungry; std::atomic<int> stop; std::atomic<uint64_t> paths; };
static Shared* sh;
static int toCoord = -1;
static std::string outFile;

static void putMsg(int fd, char type, const std::string& body) {
  uint32_t n = body.size(); std::string m; m.push_back(type); m.append((char*)&n, 4); m += body;
  size_t p = 0; while (p < m.size()) { ssize_t k = write(fd, m.data() + p, m.size() - p); if (k <= 0) { if (errno == EINTR) continue; _Exit(96); } p += k; }
}
static bool getMsg(int fd, char& type, std::string& body) {
  char h[5]; size_t p = 0;
  while (p < 5) { ssize_t k = read(fd, h + p, 5 - p); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } p += k; }
  type = h[0]; uint32_t n; memcpy(&n, h + 1, 4); body.resize(n); p = 0;
  while (p < n) { ssize_t k = read(fd, &body[p], n - p); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } p += k; }
  return true;
}
struct Wr { std::string s; void u64(uint64_t v) { s.append((char*)&v, 8); } void str(const std::string& x) { u64(x.size()); s += x; } void dbl(double d) { s.append((char*)&d, 8); } };
struct Rd { const std::string& s; size_t p = 0; uint64_t u64() { uint64_t v; memcpy(&v, s.data() + p, 8); p += 8; return v; } std::string str() { uint64_t n = u64(); std::string r = s.substr(p, n); p += n; return r; } double dbl() { double d; memcpy(&d, s.data() + p, 8); p += 8; return d; } };

static std::string serItem(const Item& it) {
  Wr w; w.u64((uint64_t)(int64_t)it.d); w.u64(it.excl.size()); for (auto x : it.excl) w.u64(x);
  w.u64(it.model.size());
  for (auto& [i, v] : it.model) { w.str(gVars[i].name); w.u64(gVars[i].width); w.u64(gVars[i].internal); w.u64((uint64_t)v); w.u64((uint64_t)(v >> 64)); }
  return w.s;
}
static Item desItem(const std::string& s) {
  Rd r{s}; Item it; it.d = (int32_t)(int64_t)r.u64(); uint64_t n = r.u64(); while (n--) it.excl.push_back(r.u64());
  n = r.u64();
  while (n--) { std::string nm = r.str(); unsigned w = r.u64(); bool in = r.u64(); u128 v = r.u64(); v |= (u128)r.u64() << 64;
    auto f = vm.varIdx.find(nm); uint32_t idx; if (f == vm.varIdx.end()) { E e = mkVar(nm, w, in); idx = e->aux; vm.varIdx.emplace(nm, idx); } else idx = f->second;
    it.model.push_back({idx, v}); }
  return it;
}
static void serViol(Wr& w, const Violation& v) { w.str(v.kind); w.str(v.msg); w.str(v.stack); w.u64(v.usesInternal); w.u64(v.model.size()); for (size_t i = 0; i < v.model.size(); ++i) { w.str(v.model[i].first); w.u64((uint64_t)v.model[i].second); w.u64((uint64_t)(v.model[i].second >> 64)); w.u64(v.widths[i]); } }
static Violation desViol(Rd& r) { Violation v; v.kind = r.str(); v.msg = r.str(); v.stack = r.str(); v.usesInternal = r.u64(); uint64_t n = r.u64(); while (n--) { std::string k = r.str(); u128 x = r.u64(); x |= (u128)r.u64() << 64; v.model.push_back({k, x}); v.widths.push_back(r.u64()); } return v; }
void onViolation(const Violation& v) { Wr w; serViol(w, v); if (toCoord >= 0) putMsg(toCoord, 'V', w.s); }

static std::string serResults() {
  Wr w; w.u64(vm.paths); w.u64(vm.pathsCut); w.u64(vm.totSteps); w.u64(vm.asserts); w.u64(vm.assertQueries); w.u64(vm.boundsQueries);
  auto& s = vm.solver.st; w.u64(s.queries); w.u64(s.cacheHits); w.u64(s.modelHits); w.u64(s.sat); w.u64(s.unsat); w.u64(s.unknown); w.dbl(s.seconds); w.dbl(s.maxSeconds);
  w.u64(vm.schedPoints);
  w.u64(vm.reached.size()); for (auto& x : vm.reached) w.str(x);
  w.u64(vm.inconcl.size()); for (auto& x : vm.inconcl) w.str(x);
  std::vector<std::string> fs; for (auto* f : vm.funcByIdx) if (f->used) fs.push_back(f->name);
  w.u64(fs.size()); for (auto& x : fs) w.str(x);
  return w.s;
}
static size_t rssKb() { FILE* f = fopen("/proc/self/statm", "r"); long a, b = 0; if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); } return b * 4; }

static void workerMain(int fd, size_t rssLimitKb) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  toCoord = fd;
  vm.solver.init();
  vm.abortFlag = (const volatile int*)&sh->stop;
  std::vector<Item> st;
  size_t runs = 0, done = 0, nextSample = 1;
  for (;;) {
    if (st.empty()) {
      putMsg(fd, 'W', "");
      char t; std::string b;
      if (!getMsg(fd, t, b) || t == 'Q') { putMsg(fd, 'D', serResults()); _Exit(0); }
      st.push_back(desItem(b));
    }
    if (sh->stop.load()) { if (sh->stop.load() == 1) vm.inconcl.insert("stopped before every path was explored"); putMsg(fd, 'D', serResults()); _Exit(0); }
    Item it = std::move(st.back()); st.pop_back();
    vm.runItem(it);
    sh->paths++;
    if (vm.completed && ++done >= nextSample) { // an explored path's input, for validation against the compiled code
      nextSample *= 2; Violation v; v.kind = "sample"; for (auto& l : vm.pathReach) v.msg += l + "\n"; v.usesInternal = vm.threads.size() > 1;
      std::set<uint32_t> seen; for (uint32_t i : vm.runVars) if (seen.insert(i).second) { v.model.push_back({gVars[i].name, i < vm.model.v.size() ? vm.model.v[i] : 0}); v.widths.push_back(gVars[i].width); }
      Wr w; serViol(w, v); putMsg(fd, 'S', w.s);
    }
    for (auto& o : vm.out) st.push_back(std::move(o));
    vm.out.clear();
    while (st.size() > 1 && sh->hungry.load() > 0) { // donate the oldest item
      sh->hungry--;
      putMsg(fd, 'I', serItem(st.front())); st.erase(st.begin());
    }
    if ((++runs & 15) == 0 && rssKb() > rssLimitKb) { for (auto& i : st) putMsg(fd, 'I', serItem(i)); putMsg(fd, 'R', serResults()); _Exit(0); }
  }
}
static std::string js(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o.push_back('\\'); o.push_back(c); } else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o.push_back(c); } return o + "\""; }
static std::string hex(u128 v) { char b[64]; if (v >> 64) snprintf(b, sizeof b, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }

static int realMain(int argc, char** argv) {
  std::string bc; int jobs = 8; double timeLimit = 600; bool stopFirst = false; size_t rssLimit = 2500;
  std::vector<std::string> known;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") vm.entry = nx(); else if (a == "--jobs") jobs = std::stoi(nx()); else if (a == "--time") timeLimit = std::stod(nx());
    else if (a == "--out") outFile = nx(); else if (a == "--steps") vm.stepLimit = std::stoull(nx()); else if (a == "--solver-ms") vm.solver.timeoutMs = std::stoul(nx());
    else if (a == "--selfcheck") vm.selfCheck = true; else if (a == "--stop-first") stopFirst = true; else if (a == "--known") known.push_back(nx());
    else if (a == "--dump-unknown") vm.solver.dumpUnknown = true; else if (a == "--preempt") vm.preemptBound = std::stoul(nx()); else if (a == "--race") vm.raceCheck = true;
    else if (a == "--ite-load") vm.iteLoadMax = std::stoul(nx()); else if (a == "--ite-store") vm.iteStoreMax = std::stoul(nx()); else if (a == "--rss") rssLimit = std::stoul(nx());
    else bc = a;
  }
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(bc, err, ctx);
  if (!M) { err.print("vsym", errs()); return 99; }
  { // file functions of the C library are replaced by the in-memory file system
    std::vector<std::pair<Function*, Function*>> rep;
    for (auto& F : *M) if (F.isDeclaration()) if (auto* W = M->getFunction(("__wrap_" + F.getName()).str())) if (!W->isDeclaration()) rep.push_back({&F, W});
    for (auto& r : rep) r.first->replaceAllUsesWith(r.second);
  }
  registerIntrinsics();
  auto t0 = std::chrono::steady_clock::now();
  vm.load(M.get()); vm.initGlobals(); 
  try { vm.runInit(); } catch (PathEnd& e) { fprintf(stderr, "init failed: %s\n", e.why.c_str()); return 98; }
  if (!M->getFunction(vm.entry)) { fprintf(stderr, "no entry %s\n", vm.entry.c_str()); return 99; }
  sh = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  struct W { pid_t pid; int fd; bool waiting; };
  std::vector<W> ws;
  std::vector<std::string> queue;
  queue.push_back(serItem(Item()));
  auto spawn = [&]() {
    int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) { perror("socketpair"); exit(99); }
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) { close(sv[0]); for (auto& w : ws) close(w.fd); workerMain(sv[1], rssLimit * 1024); _Exit(0); }
    close(sv[1]); ws.push_back({p, sv[0], false});
  };
  for (int i = 0; i < jobs; ++i) spawn();
  std::map<std::string, Violation> viols; std::vector<Violation> samples;
  uint64_t tot[7] = {0}; uint64_t sq[6] = {0}; double secs = 0, maxs = 0; uint64_t sched = 0;
  std::set<std::string> reached, inconcl, funcs;
  auto merge = [&](const std::string& b) { Rd r{b}; for (int i = 0; i < 6; ++i) tot[i] += r.u64(); for (int i = 0; i < 6; ++i) sq[i] += r.u64(); secs += r.dbl(); maxs = std::max(maxs, r.dbl()); sched += r.u64(); uint64_t n = r.u64(); while (n--) reached.insert(r.str()); n = r.u64(); while (n--) inconcl.insert(r.str()); n = r.u64(); while (n--) funcs.insert(r.str()); };
  bool quitting = false;
  while (!ws.empty()) {
    double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (el > timeLimit && !sh->stop.load()) { sh->stop = 1; inconcl.insert("time budget of " + std::to_string((int)timeLimit) + " s used up"); queue.clear(); }
    if (sh->stop.load()) queue.clear();
    if (el > timeLimit + 30) { inconcl.insert("workers had to be stopped"); for (auto& w : ws) kill(w.pid, SIGKILL); }
    // hand out work
    for (auto& w : ws) if (w.waiting && !queue.empty()) { w.waiting = false; putMsg(w.fd, 'I', queue.back()); queue.pop_back(); }
    size_t waiting = 0; for (auto& w : ws) waiting += w.waiting;
    int hungry = (int)waiting - (int)queue.size(); sh->hungry = hungry > 0 ? hungry : 0;
    if (waiting == ws.size() && queue.empty()) { quitting = true; for (auto& w : ws) if (w.waiting) { putMsg(w.fd, 'Q', ""); w.waiting = false; } }
    std::vector<pollfd> pf; for (auto& w : ws) pf.push_back({w.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 500);
    std::vector<size_t> dead; int respawn = 0;
    for (size_t i = 0; i < pf.size(); ++i) if (pf[i].revents) {
      char t; std::string b;
      if (!getMsg(ws[i].fd, t, b)) { inconcl.insert("a worker process died"); dead.push_back(i); if (!sh->stop.load()) sh->stop = 1; continue; }
      if (t == 'W') ws[i].waiting = true;
      else if (t == 'I') queue.push_back(b);
      else if (t == 'V') { Rd r{b}; Violation v = desViol(r); std::string key = v.kind + "|" + v.msg; if (v.kind == "memory" || v.kind == "hang" || v.kind == "abort" || v.kind == "race") key += "|" + v.stack.substr(0, v.stack.find(" < ")); if (viols.emplace(key, v).second) { bool kn = false; for (auto& k : known) if (v.msg == k) kn = true; fprintf(stderr, "vsym: violation [%s] %s at %s\n", v.kind.c_str(), v.msg.c_str(), v.stack.c_str()); if (stopFirst && !kn) sh->stop = 2; if (viols.size() > 40) sh->stop = 2; } }
      else if (t == 'S') { Rd r{b}; if (samples.size() < 64) samples.push_back(desViol(r)); }
      else if (t == 'D') { merge(b); dead.push_back(i); }
      else if (t == 'R') { merge(b); dead.push_back(i); if (!sh->stop.load()) ++respawn; }
    }
    for (size_t k = dead.size(); k-- > 0;) { close(ws[dead[k]].fd); int stt; waitpid(ws[dead[k]].pid, &stt, 0); ws.erase(ws.begin() + dead[k]); }
    while (respawn--) spawn();
    if (sh->stop.load() && !quitting) for (auto& w : ws) if (w.waiting) { putMsg(w.fd, 'Q', ""); w.waiting = false; }
  }
  double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  // all labels of vs_reach calls in functions that were executed
  std::set<std::string> labels;
  if (auto* F = M->getFunction("vs_reach")) for (auto* U : F->users()) if (auto* cb = dyn_cast<CallBase>(U)) if (auto* g = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts())) if (g->hasInitializer()) if (auto* cd = dyn_cast<ConstantDataSequential>(g->getInitializer())) {
    if (cd->isCString() && funcs.count(cb->getFunction()->getName().str())) labels.insert(cd->getAsCString().str()); }
  std::ostringstream o;
  o << "{\"entry\":" << js(vm.entry) << ",\"paths\":" << tot[0] << ",\"pathsCut\":" << tot[1] << ",\"steps\":" << tot[2] << ",\"asserts\":" << tot[3] << ",\"assertQueries\":" << tot[4] << ",\"boundsChecks\":" << tot[5]
    << ",\"queries\":" << sq[0] << ",\"cacheHits\":" << sq[1] << ",\"modelHits\":" << sq[2] << ",\"sat\":" << sq[3] << ",\"unsat\":" << sq[4] << ",\"unknown\":" << sq[5] << ",\"solverSeconds\":" << secs << ",\"maxQuerySeconds\":" << maxs << ",\"schedPoints\":" << sched << ",\"wall\":" << el;
  auto list = [&](const char* k, const std::set<std::string>& s) { o << ",\n\"" << k << "\":["; bool f = true; for (auto& x : s) { if (!f) o << ","; f = false; o << js(x); } o << "]"; };
  list("reached", reached); std::set<std::string> un; for (auto& l : labels) if (!reached.count(l)) un.insert(l); list("unreached", un); list("inconclusive", inconcl); list("functions", funcs);
  bool f1 = true;
  auto one = [&](const Violation& v) { if (!f1) o << ","; f1 = false; o << "\n{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"stack\":" << js(v.stack) << ",\"internal\":" << (v.usesInternal ? "true" : "false") << ",\"model\":["; for (size_t i = 0; i < v.model.size(); ++i) { if (i) o << ","; o << "[" << js(v.model[i].first) << "," << v.widths[i] << "," << js(hex(v.model[i].second)) << "]"; } o << "]}"; };
  o << ",\n\"violations\":["; for (auto& [k, v] : viols) one(v);
  o << "],\n\"samples\":["; f1 = true; for (auto& v : samples) one(v);
  o << "]}\n";
  if (outFile.empty()) std::cout << o.str(); else { std::ofstream(outFile) << o.str(); }
  fprintf(stderr, "vsym %s: %llu paths (%llu cut) %.1f Minstr %llu queries (%llu cached) solver %.1fs wall %.1fs viol %zu inconcl %zu unreached %zu\n", vm.entry.c_str(), (unsigned long long)tot[0], (unsigned long long)tot[1], tot[2] / 1e6, (unsigned long long)sq[0], (unsigned long long)(sq[1] + sq[2]), secs, el, viols.size(), inconcl.size(), un.size());
  return 0;
}
#include <iostream>
int main(int argc, char** argv) {
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
  rlim_t want = 1024ull << 20;
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < want && !getenv("VSYM_REEXEC")) { rl.rlim_cur = (rl.rlim_max == RLIM_INFINITY || rl.rlim_max > want) ? want : rl.rlim_max; setrlimit(RLIMIT_STACK, &rl); setenv("VSYM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
  setvbuf(stderr, nullptr, _IOLBF, 0);
  return realMain(argc, argv);
}
