// C04: a file that could not be written completely is never reported as written.
#include <deque>
#include "vsvrs.h"
using namespace vrs;
namespace {
struct Chunked : RecordFileWriter { void chunkSize(uint64_t n) { maxChunkSize_ = n; } };
constexpr int N = 3;
void fill(Rec* r) { for (int i = 0; i < N; ++i) { r[i].ts = symTime("ts"); if (i) vs_assume(r[i].ts > r[i - 1].ts); r[i].type = Record::Type::DATA; r[i].fmt = 7; r[i].size = i == 0 ? 0 : i == 2 ? 40 : 3; vs_sym_bytes(r[i].data, r[i].size < 4 ? r[i].size : 4, "data"); for (size_t k = 4; k < r[i].size; ++k) r[i].data[k] = (uint8_t)k; } }
// true if the file holds every record, as written
void complete(const char* path, const Rec* r, const StreamId* ids) {
  RecordFileReader rd;
  vs_assert(rd.openFile(path) == 0, "a file reported as written opens");
  KeepPlayer p; for (int i = 0; i < N; ++i) rd.setStreamPlayer(ids[i], &p);
  vs_assert(rd.readAllRecords() == 0, "a file reported as written reads without error");
  vs_assert((int)p.got.size() == N, "a file reported as written has every record");
  for (int i = 0; i < N; ++i) sameRec(p.got[i], r[i], ids[i]);
}
}
// Any one storage operation fails (or it and all later ones), in any mode of writing
VS_ENTRY(h_write_fault) {
  Rec r[N]; StreamId ids[N]; fill(r);
  int mode = (int)vs_choose(5, "mode");
  Dev a(RecordableTypeId::UnitTest1), b(RecordableTypeId::UnitTest2);
  Chunked w; w.addRecordable(&a); w.addRecordable(&b);
  if (mode == 1) {
    auto guess = std::make_unique<std::deque<IndexRecord::DiskRecordInfo>>();
    for (int i = 0; i < 4; ++i) guess->push_back(IndexRecord::DiskRecordInfo((double)i, 1, a.getStreamId(), Record::Type::DATA));
    w.preallocateIndex(std::move(guess));
  }
  int kind = (int)vs_choose(3, "fault kind");
  unsigned op = (unsigned)vs_range(0, 1000, "failing operation");
  size_t partial = kind == 2 ? 0 : (size_t)vs_range(0, 100000, "bytes that got there");
  bool persistent = vs_bool("persistent");
  // 0: any operation fails at once; 1: a write fails when its buffer is flushed; 2: seeks, truncations, opens and closes
  vsfs_arm_fault(kind == 0 ? (VF_WRITE | VF_FLUSH) : kind == 1 ? VF_WRITE : (VF_CLOSE | VF_SEEK | VF_TRUNC | VF_OPEN | VF_TELL), op, partial, persistent, kind == 1);
  int e = 0;
  auto note = [&](int x) { if (x != 0 && e == 0) e = x; };
  if (mode == 4) {
    for (int i = 0; i < N; ++i) { Dev& d = i == 1 ? b : a; ids[i] = d.getStreamId(); d.make(r[i].ts, r[i].type, r[i].fmt, r[i].data, r[i].size); }
    note(w.writeToFile("/f.vrs"));
  } else {
    if (mode >= 2) { note(w.createChunkedFile("/f.vrs")); w.chunkSize(mode == 2 ? (1 << 20) : 40); }
    else note(w.createFileAsync("/f.vrs"));
    bool created = e == 0;
    for (int i = 0; i < N; ++i) {
      Dev& d = i == 1 ? b : a; ids[i] = d.getStreamId();
      d.make(r[i].ts, r[i].type, r[i].fmt, r[i].data, r[i].size);
      if (i < 2 && created) note(w.writeRecordsAsync(r[i].ts));
    }
    if (created) note(w.waitForFileClosed());
  }
  int fired = vsfs_fault_fired();
  vsfs_disarm_fault();
  if (e == 0) { complete("/f.vrs", r, ids); if (fired) vs_reach("maybe:harmless fault"); else vs_reach("no fault"); }
  else { vs_assert(fired > 0, "an error is reported only when something failed"); vs_reach("reported"); }
}
// The disk is full after any number of bytes
VS_ENTRY(h_disk_full) {
  Rec r[N]; StreamId ids[N]; fill(r);
  int mode = (int)vs_choose(3, "mode");
  Dev a(RecordableTypeId::UnitTest1), b(RecordableTypeId::UnitTest2);
  Chunked w; w.addRecordable(&a); w.addRecordable(&b);
  vsfs_set_capacity(vs_range(0, 100000, "capacity of a file"));
  int e = 0; auto note = [&](int x) { if (x != 0 && e == 0) e = x; };
  if (mode == 0) {
    for (int i = 0; i < N; ++i) { Dev& d = i == 1 ? b : a; ids[i] = d.getStreamId(); d.make(r[i].ts, r[i].type, r[i].fmt, r[i].data, r[i].size); }
    note(w.writeToFile("/f.vrs"));
  } else {
    note(mode == 2 ? w.createChunkedFile("/f.vrs") : w.createFileAsync("/f.vrs"));
    bool created = e == 0;
    for (int i = 0; i < N; ++i) { Dev& d = i == 1 ? b : a; ids[i] = d.getStreamId(); d.make(r[i].ts, r[i].type, r[i].fmt, r[i].data, r[i].size); }
    if (created) note(w.waitForFileClosed());
  }
  vsfs_set_capacity(~0ull);
  if (e == 0) { complete("/f.vrs", r, ids); vs_reach("fits"); } else vs_reach("reported");
}
