// C09: a file split in chunks behaves as one sequence of bytes. C27: files replaced atomically. C28: the asynchronous variant.
#include "vsvrs.h"
#include <vrs/DiskFile.h>
using namespace vrs;
#include "diskops.h"
VS_ENTRY(h_disk_read) { readOps<DiskFile>(); }
VS_ENTRY(h_disk_write) { writeOps<DiskFile>(); }
// replaced as a whole or not at all, whenever the process stops, whatever write fails
VS_ENTRY(h_disk_atomic) {
  uint8_t old[3], now[6]; vs_sym_bytes(old, 3, "old"); vs_sym_bytes(now, 6, "new");
  bool had = vs_bool("file exists"); if (had) vsfs_create("/d/f", old, 3);
  auto isOld = [&] { if (!had) return vsfs_exists("/d/f") == 0; if (vsfs_size("/d/f") != 3) return false; unsigned d = 0; for (int i = 0; i < 3; ++i) d |= vsfs_data("/d/f")[i] ^ old[i]; return d == 0; };
  auto isNew = [&] { if (vsfs_size("/d/f") != 6) return false; unsigned d = 0; for (int i = 0; i < 6; ++i) d |= vsfs_data("/d/f")[i] ^ now[i]; return d == 0; };
  bool crash = vs_bool("crash");
  unsigned k = (unsigned)vs_range(0, 7, "nth"); size_t part = vs_range(0, 6, "partial bytes");
  if (crash) vsfs_arm_crash(k, part); else vsfs_arm_fault(VF_WRITE | VF_FLUSH | VF_CLOSE | VF_OPEN | VF_SEEK, k, part, (int)vs_choose(2, "persistent"), (int)vs_choose(2, "deferred"));
  int e = 0; bool aborted = vs_bool("abort");
  {
    AtomicDiskFile f; e = f.create("/d/f");
    if (e == 0) {
      e = f.write(now, 2); if (e == 0) e = f.write(now + 2, 4);
      if (e == 0 && vs_bool("rewrite the start")) { e = f.setPos(0); if (e == 0) e = f.write(now, 1); }
      if (e || aborted) { f.abort(); aborted = true; }
      else e = f.close();
    } else aborted = true;
  }
  if (crash) { if (!vsfs_crashed()) vs_silent_end(); vsfs_restore_crash(); vs_assert(isOld() || isNew(), "a file replaced atomically is the old or the new one, never a part"); if (aborted) vs_assert(isOld(), "a replacement given up leaves the old file"); vs_reach("stopped"); return; }
  vsfs_disarm_fault();
  if (aborted) { vs_assert(isOld(), "a replacement given up leaves the old file"); vs_reach("given up"); return; }
  if (e == 0) { vs_assert(isNew(), "a replacement reported done is complete"); vs_reach("replaced"); }
  else { vs_assert(isOld() || isNew(), "a replacement that failed leaves a whole file"); vs_reach("failed"); }
}
// compressed side files: what is reported written is there; a failure leaves no partial file
VS_ENTRY(h_disk_zstd) {
  uint8_t old[2] = {7, 7}; bool had = vs_bool("file exists"); if (had) vsfs_create("/d/f", old, 2);
  size_t n = vs_choose(6, "size"); string text(n, 0); vs_sym_bytes(n ? &text[0] : (char*)old, n, "text");
  unsigned k = (unsigned)vs_range(0, 7, "nth"); size_t part = vs_range(0, 2, "partial bytes") * 9;
  if (k) vsfs_arm_fault(VF_WRITE | VF_FLUSH | VF_CLOSE | VF_OPEN, k - 1, part, (int)vs_choose(2, "persistent"), (int)vs_choose(2, "deferred"));
  int e = DiskFile::writeZstdFile("/d/f", text);
  bool fired = k && vsfs_fault_fired(); vsfs_disarm_fault();
  string got; int r = vsfs_exists("/d/f") ? DiskFile::readZstdFile("/d/f", got) : -1;
  if (!fired) vs_assert(e == 0, "a file is written");
  bool same = r == 0 && got.size() == n; if (same) { unsigned d = 0; for (size_t i = 0; i < n; ++i) d |= (unsigned char)(got[i] ^ text[i]); same = d == 0; }
  if (e == 0) { vs_assert(same, "a compressed file reported written is read back as it was"); vs_reach("read"); }
  else {
    bool untouched = had ? vsfs_size("/d/f") == 2 && vsfs_data("/d/f")[0] == 7 && vsfs_data("/d/f")[1] == 7 : !vsfs_exists("/d/f");
    vs_assert(same || untouched, "a compressed file that could not be written leaves no partial file");
    vs_reach("failed");
  }
}
// text files
VS_ENTRY(h_disk_text) {
  size_t n = vs_choose(6, "size"); string text(n, 0); char c; vs_sym_bytes(n ? &text[0] : &c, n, "text");
  unsigned k = (unsigned)vs_range(0, 4, "nth");
  if (k) vsfs_arm_fault(VF_WRITE | VF_FLUSH | VF_CLOSE | VF_OPEN, k - 1, vs_range(0, 5, "partial bytes"), (int)vs_choose(2, "persistent"), (int)vs_choose(2, "deferred"));
  int e = DiskFile::writeTextFile("/f", text);
  bool fired = k && vsfs_fault_fired(); vsfs_disarm_fault();
  if (!fired) vs_assert(e == 0, "a file is written");
  if (e == 0) {
    string got = DiskFile::readTextFile("/f"); vs_assert(got.size() == n, "a text file is read back as it was written");
    unsigned d = 0; for (size_t i = 0; i < n; ++i) d |= (unsigned char)(got[i] ^ text[i]);
    vs_assert(d == 0, "a text file is read back as it was written");
    vs_reach("text read");
  } else vs_reach("text refused");
}
