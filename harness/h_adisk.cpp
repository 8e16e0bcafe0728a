// C28: a file written asynchronously is the file that was written.
#include "vsvrs.h"
#include <vrs/AsyncDiskFileChunk.h>
#include <vrs/DiskFile.h>
#include "diskops.h"
namespace {
const char* kEngine[] = {"aio", "psync", "sync"};
void options(unsigned engine, bool direct, unsigned buffers, unsigned depth) {
  diskExtras = {{"ioengine", kEngine[engine]}, {"direct", direct ? "1" : "0"}, {"buffer_size", "512"}, {"mem_align", direct ? "512" : "8"}, {"offset_align", direct ? "512" : "1"}, {"buffer_count", std::to_string(buffers)}, {"iodepth", std::to_string(depth)}};
}
// bytes of which each one is told from the others around it, and the first and the last are any
void fill(vector<uint8_t>& b, size_t n, unsigned seed) { b.resize(n); for (size_t i = 0; i < n; ++i) b[i] = (uint8_t)(i * 7 + seed * 29 + i / 256); vs_sym_bytes(b.data(), 1, "first byte"); if (n > 1) vs_sym_bytes(&b[n - 1], 1, "last byte"); }
void sameFile(const vector<uint8_t>& want, const char* msg) {
  vs_assert(vsfs_size("/f") == (int64_t)want.size(), "a file has the size of what was written"); if (!want.empty()) sameBytes(vsfs_data("/f"), want.data(), want.size(), msg);
}
}
VS_ENTRY(h_adisk_read) { options(0, TIER(false, (bool)vs_choose(2, "direct")), 2, 2); readOps<AsyncDiskFile>(); }
VS_ENTRY(h_adisk_write) { options(TIER(2 * (unsigned)vs_choose(2, "engine"), (unsigned)vs_choose(3, "engine")), TIER(false, (bool)vs_choose(2, "direct")), 2, 2); writeOps<AsyncDiskFile>(); }
// pieces around the size of a buffer, written, overwritten, read and cut
VS_ENTRY(h_adisk_pieces) {
  options((unsigned)vs_choose(3, "engine"), vs_choose(2, "direct"), 2, 1 + (unsigned)vs_choose(2, "depth")); AsyncDiskFile d; vs_assert(d.create("/f", diskExtras) == 0, "the file is created");
  vector<uint8_t> want, b; size_t pos = 0; static const size_t kn[] = {513, 1, 512, 511, 1030}; static const size_t kp[] = {0, 1, 600};
  for (int k = 0; k < TIER(3, 4); ++k) {
    unsigned op = k == 0 ? 0 : (unsigned)vs_choose(4, "op");
    if (op < 2) { // write, or go somewhere and write
      if (op == 1) { pos = vs_choose(2, "at") ? (size_t)vs_concretize(vs_range(TIER(510, 507), TIER(514, 517), "position")) : kp[vs_choose(TIER(1, 3), "position")]; if (pos > want.size()) pos = want.size(); vs_assert(d.setPos((int64_t)pos) == 0, "a position in the file can be set"); }
      fill(b, kn[vs_choose(TIER(4, 5), "length")], (unsigned)k); vs_assert(d.overwrite(b.data(), b.size()) == 0 && d.getLastRWSize() == b.size(), "bytes are written");
      if (want.size() < pos + b.size()) want.resize(pos + b.size()); memcpy(&want[pos], b.data(), b.size()); pos += b.size();
    } else if (op == 2) { // read what was just written
      size_t from = pos > 600 ? pos - 600 : 0; vs_assert(d.setPos((int64_t)from) == 0, "a position in the file can be set"); vector<uint8_t> g(pos - from); vs_assert(d.read(g.data(), g.size()) == 0, "bytes are read"); sameBytes(g.data(), &want[from], g.size(), "the bytes read are the last ones written");
    } else { pos = pos > 520 ? pos - 520 : 0; vs_assert(d.setPos((int64_t)pos) == 0 && d.truncate() == 0, "the file is cut"); want.resize(pos); }
    vs_assert(d.getPos() == (int64_t)pos, "the position is where the last operation left it");
  }
  vs_assert(d.close() == 0, "the file is closed"); sameFile(want, "the bytes written are on disk in their place"); vs_reach("written");
}
// completions at any time, in any order
VS_ENTRY(h_adisk_schedules) {
  options(0, TIER(false, (bool)vs_choose(2, "direct")), 1 + (unsigned)vs_choose(2, "buffers"), 1 + (unsigned)vs_choose(2, "depth")); vector<uint8_t> want, b;
  { AsyncDiskFile d; vs_assert(d.create("/f", diskExtras) == 0, "the file is created");
    for (int k = 0; k < 2; ++k) { fill(b, k ? 520 : 1024, (unsigned)k); vs_assert(d.write(b.data(), b.size()) == 0, "bytes are written"); want.insert(want.end(), b.begin(), b.end()); memset(b.data(), 0, b.size()); }
    unsigned then = (unsigned)vs_choose(3, "then");
    if (then == 1) { vs_assert(d.setPos(500) == 0, "a position in the file can be set"); fill(b, 530, 5); vs_assert(d.overwrite(b.data(), b.size()) == 0, "bytes are written"); memcpy(&want[500], b.data(), b.size()); }
    if (then == 2) { uint8_t g[40]; vs_assert(d.setPos(1000) == 0 && d.read(g, 40) == 0, "bytes are read"); sameBytes(g, &want[1000], 40, "the bytes read are the last ones written"); }
    vs_assert(d.close() == 0, "the file is closed"); }
  sameFile(want, "the bytes written are on disk in their place"); vs_reach("written");
}
// a write that fails is told, at the latest when the file is closed
VS_ENTRY(h_adisk_fault) {
  options((unsigned)vs_choose(3, "engine"), vs_choose(2, "direct"), 1 + (unsigned)vs_choose(2, "buffers"), 1 + (unsigned)vs_choose(2, "depth")); vector<uint8_t> want, b; int e = 0; bool submit = vs_choose(2, "not started");
  AsyncDiskFile d; vs_assert(d.create("/f", diskExtras) == 0, "the file is created");
  if (submit) vsfs_aio_submit_fault(1 + (int)vs_choose(3, "nth")); else vsfs_arm_fault(VF_WRITE | VF_CLOSE | VF_OPEN, (unsigned)vs_range(0, 5, "nth"), vs_choose(2, "part") ? 100 : 0, (int)vs_choose(2, "persistent"), 0);
  for (int k = 0; k < 3; ++k) { fill(b, k == 1 ? 200 : 700, (unsigned)k); int r = d.write(b.data(), b.size()); if (r) e = r; want.insert(want.end(), b.begin(), b.end()); if (e) break; if (k == 1 && vs_choose(2, "go back")) { r = d.setPos(900); if (r) e = r; if (e) break; } }
  int r = d.close(); if (r) e = r; vs_assert(!d.isOpened(), "the file is closed");
  bool fired = vsfs_fault_fired(); vsfs_disarm_fault(); vsfs_aio_submit_fault(0);
  if (e == 0) { sameFile(want, "a file written without error is complete"); vs_reach("complete"); } else { vs_assert(fired, "nothing fails unless something did"); vs_reach("told"); }
}
