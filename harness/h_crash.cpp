// C03: whatever moment writing stops at, every record that was completely on disk is read back, and nothing else.
#include <deque>
#include "vsvrs.h"
using namespace vrs;
namespace {
struct Chunked : RecordFileWriter { void chunkSize(uint64_t n) { maxChunkSize_ = n; } };
constexpr int N = 3;
struct Where { string chunk; size_t end; };
// where each record's last byte is in the finished files
vector<Where> placeRecords(const char* path, int n) {
  RecordFileReader rd;
  vs_assert(rd.openFile(path) == 0, "the finished file opens");
  vs_assert((int)rd.getIndex().size() == n, "the finished file has every record");
  auto chunks = rd.getFileChunks();
  vector<Where> at;
  for (auto& e : rd.getIndex()) {
    int64_t off = e.fileOffset; size_t c = 0;
    while (c < chunks.size() && off >= chunks[c].second) off -= chunks[c++].second;
    vs_assert(c < chunks.size(), "an index entry points into the file");
    FileFormat::RecordHeader h; memcpy((void*)&h, vsfs_data(chunks[c].first.c_str()) + off, sizeof h);
    at.push_back({chunks[c].first, (size_t)off + h.recordSize});
  }
  return at;
}
void checkSurvivors(const char* path, const Rec* r, const StreamId* ids, int n, const vector<Where>& at, size_t minHead) {
  int whole = 0;
  while (whole < n && vsfs_size(at[whole].chunk.c_str()) >= (int64_t)at[whole].end) ++whole;
  RecordFileReader rd;
  int e = vsfs_exists(path) && vsfs_size(path) > 0 ? rd.openFile(path) : 1;
  if (e != 0) {
    vs_assert(whole == 0, "a file with complete records opens after a crash");
    vs_reach("maybe:not recoverable");
    return;
  }
  vs_reach("recovered");
  KeepPlayer p;
  for (int i = 0; i < n; ++i) rd.setStreamPlayer(ids[i], &p);
  for (auto& x : rd.getIndex()) vs_assert(rd.readRecord(x) == 0, "a record in the index of a recovered file can be read");
  vs_assert((int)p.got.size() >= whole, "every record that was completely on disk is recovered");
  vs_assert((int)p.got.size() <= whole, "no record that was not completely on disk is reported");
  for (int i = 0; i < whole; ++i) sameRec(p.got[i], r[i], ids[i]);
}
void session(int mode, Rec* r, StreamId* ids, bool withCrash, unsigned op, size_t partial) {
  Dev a(RecordableTypeId::UnitTest1), b(RecordableTypeId::UnitTest2);
  Chunked w; w.addRecordable(&a); w.addRecordable(&b);
  if (mode == 1) {
    auto guess = std::make_unique<std::deque<IndexRecord::DiskRecordInfo>>();
    for (int i = 0; i < 4; ++i) guess->push_back(IndexRecord::DiskRecordInfo((double)i, 1, a.getStreamId(), Record::Type::DATA));
    w.preallocateIndex(std::move(guess));
  }
  if (withCrash) vsfs_arm_crash(op, partial);
  if (mode >= 2) { vs_assert(w.createChunkedFile("/f.vrs") == 0, "the file is created"); w.chunkSize(mode == 2 ? (1 << 20) : 40); }
  else vs_assert(w.createFileAsync("/f.vrs") == 0, "the file is created");
  for (int i = 0; i < N; ++i) {
    Dev& d = i == 1 ? b : a; ids[i] = d.getStreamId();
    d.make(r[i].ts, r[i].type, r[i].fmt, r[i].data, r[i].size);
    if (i < 2) vs_assert(w.writeRecordsAsync(r[i].ts) == 0, "a batch is accepted");
  }
  vs_assert(w.waitForFileClosed() == 0, "the file is closed without error");
}
void fill(Rec* r) {
  for (int i = 0; i < N; ++i) { r[i].ts = symTime("ts"); if (i) vs_assume(r[i].ts > r[i - 1].ts); r[i].type = i == 0 ? Record::Type::CONFIGURATION : Record::Type::DATA; r[i].fmt = i == 0 ? vs_u32("fmt") : 7; r[i].size = i == 2 ? 9 : i; vs_sym_bytes(r[i].data, r[i].size, "data"); }
}
}
// The writing process or the machine stops at any write, any part of that write being on disk
VS_ENTRY(h_crash) {
  Rec r[N]; StreamId ids[N]; fill(r);
  int mode = (int)vs_choose(4, "mode");
  unsigned op = (unsigned)vs_range(0, 1000, "crash at write");
  size_t partial = (size_t)vs_range(0, 100000, "bytes of that write on disk");
  session(mode, r, ids, true, op, partial);
  vs_assume(vsfs_crashed());
  auto at = placeRecords("/f.vrs", N);
  vsfs_restore_crash();
  checkSurvivors("/f.vrs", r, ids, N, at, 0);
}
// The tail of the file is lost: cut at any byte (the last chunk for a chunked file)
VS_ENTRY(h_truncated) {
  Rec r[N]; StreamId ids[N]; fill(r);
  int mode = (int)vs_choose(4, "mode");
  session(mode, r, ids, false, 0, 0);
  auto at = placeRecords("/f.vrs", N);
  const char* last = mode == 3 ? "/f.vrs_3" : mode == 2 ? "/f.vrs_1" : "/f.vrs";
  vs_assert(vsfs_exists(last), "the last chunk exists");
  size_t size = (size_t)vsfs_size(last);
  vsfs_truncate(last, (size_t)vs_range(0, size - 1, "new size"));
  checkSurvivors("/f.vrs", r, ids, N, at, 0);
}
// The repair of a file without index stops at any write: the records are all still there
VS_ENTRY(h_crash_repair) {
  Rec r[N]; StreamId ids[N]; fill(r);
  int mode = (int)vs_choose(2, "mode");
  session(mode, r, ids, true, (unsigned)vs_range(0, 1000, "crash at write"), 0);
  vs_assume(vsfs_crashed());
  auto at = placeRecords("/f.vrs", N);
  vsfs_restore_crash();
  vs_assume(vsfs_exists("/f.vrs") && vsfs_size("/f.vrs") > 0);
  int whole = 0; while (whole < N && vsfs_size(at[whole].chunk.c_str()) >= (int64_t)at[whole].end) ++whole;
  // some bytes of a half written record may follow
  vsfs_arm_crash((unsigned)vs_range(0, 1000, "repair stops at write"), (size_t)vs_range(0, 100000, "bytes of that write on disk"));
  { RecordFileReader rd; rd.openFile("/f.vrs", true); }
  bool again = vsfs_crashed();
  if (again) { vsfs_restore_crash(); vs_reach("stopped in the repair"); }
  vsfs_arm_crash(1000, 0);
  if (whole == 0) return;
  RecordFileReader rd;
  vs_assert(rd.openFile("/f.vrs") == 0, "a file with complete records opens after a stopped repair");
  KeepPlayer p; for (int i = 0; i < N; ++i) rd.setStreamPlayer(ids[i], &p);
  for (auto& x : rd.getIndex()) vs_assert(rd.readRecord(x) == 0, "a record in the index of a recovered file can be read");
  vs_assert((int)p.got.size() >= whole, "a stopped repair loses no record");
  for (int i = 0; i < whole; ++i) sameRec(p.got[i], r[i], ids[i]);
}
// What follows the last record is not a record (blocks the file system zeroed, a damaged header): a repair writes an index that tells the truth
VS_ENTRY(h_repair_garbage) {
  Rec r[N]; StreamId ids[N]; fill(r);
  session(0, r, ids, false, 0, 0);
  auto at = placeRecords("/f.vrs", N);
  // the index never made it
  int n = (int)vs_choose(N + 1, "records on disk");
  FileFormat::FileHeader fh; memcpy((void*)&fh, vsfs_data("/f.vrs"), sizeof fh);
  size_t end = n ? at[n - 1].end : (size_t)fh.firstUserRecordOffset;
  if (n == 0) { FileFormat::RecordHeader d; memcpy((void*)&d, vsfs_data("/f.vrs") + fh.descriptionRecordOffset, sizeof d); end = (size_t)fh.descriptionRecordOffset + d.recordSize; }
  vsfs_truncate("/f.vrs", end);
  fh.indexRecordOffset = 0; memcpy(vsfs_data("/f.vrs"), (void*)&fh, sizeof fh);
  uint8_t tail[80]; size_t tailSize = vs_choose(3, "bytes after the last record") == 0 ? 16 : vs_bool("long tail") ? 80 : 33;
  memset(tail, 0, sizeof tail);
  FileFormat::RecordHeader h; memset((void*)&h, 0, sizeof h);
  if (vs_bool("damaged header")) {
    vs_sym(&h.recordSize, 4, "recordSize"); vs_sym(&h.previousRecordSize, 4, "previousRecordSize"); h.setRecordableTypeId(RecordableTypeId::UnitTest1);
    h.recordType = vs_u8("recordType"); vs_sym(&h.uncompressedSize, 4, "uncompressedSize");
    memcpy(tail, (void*)&h, sizeof h);
  }
  vector<uint8_t> all(vsfs_data("/f.vrs"), vsfs_data("/f.vrs") + end); all.insert(all.end(), tail, tail + tailSize);
  vsfs_create("/f.vrs", all.data(), all.size());
  size_t found; { RecordFileReader rd; vs_assert(rd.openFile("/f.vrs", true) == 0, "a file with a damaged tail opens"); found = rd.getIndex().size(); }
  vs_assume(found <= (size_t)n); // otherwise the damaged header makes a valid record
  RecordFileReader rd;
  vs_assert(rd.openFile("/f.vrs") == 0, "a repaired file opens");
  vs_assert(rd.hasIndex(), "a repaired file has an index");
  vs_assert(rd.getIndex().size() == found, "a repaired file has the records the repair found");
  vs_assert(found + 1 >= (size_t)n, "a repair gives up the last record at most");
  KeepPlayer p; for (int i = 0; i < N; ++i) rd.setStreamPlayer(ids[i], &p);
  for (auto& x : rd.getIndex()) vs_assert(rd.readRecord(x) == 0, "a record in the index of a repaired file can be read");
  int kept = 0; for (auto& g : p.got) { if (kept < n && kept < (int)found) sameRec(g, r[kept], ids[kept]); ++kept; }
  vs_reach("repaired");
}
