// C02: the index of a file says exactly where its records are, however the index came to be.
#include <deque>
#include "vsvrs.h"
using namespace vrs;
namespace {
struct Chunked : RecordFileWriter { void chunkSize(uint64_t n) { maxChunkSize_ = n; } };
// every index entry is the header of a record at that offset, and the entries are the records written, in order
void indexTruth(RecordFileReader& rd, const Rec* r, const StreamId* ids, int n) {
  const auto& ix = rd.getIndex();
  vs_assert((int)ix.size() == n, "the index has one entry per record");
  auto chunks = rd.getFileChunks();
  auto o = fileOrder(r, ids, n);
  for (int i = 0; i < n; ++i) {
    int64_t off = ix[i].fileOffset; size_t c = 0;
    vs_assert(off > 0, "an index entry points into the file");
    while (c < chunks.size() && off >= chunks[c].second) off -= chunks[c++].second;
    vs_assert(c < chunks.size() && off + (int64_t)sizeof(FileFormat::RecordHeader) <= chunks[c].second, "an index entry points into the file");
    FileFormat::RecordHeader h; memcpy((void*)&h, vsfs_data(chunks[c].first.c_str()) + off, sizeof h);
    const Rec& x = r[o[i]];
    vs_assert(ix[i].timestamp == x.ts && ix[i].streamId == ids[o[i]] && ix[i].recordType == x.type, "an index entry describes the record written");
    vs_assert(h.timestamp == x.ts && h.getStreamId() == ids[o[i]] && h.getRecordType() == x.type && h.formatVersion == x.fmt, "the record at an entry's offset is that record");
    if (i) vs_assert(!(ix[i] < ix[i - 1]), "the index is sorted by time, then stream");
  }
  KeepPlayer p;
  for (int i = 0; i < n; ++i) rd.setStreamPlayer(ids[i], &p);
  vs_assert(rd.readAllRecords() == 0, "every indexed record can be read");
  vs_assert((int)p.got.size() == n, "every indexed record is read");
  for (int i = 0; i < n; ++i) sameRec(p.got[i], r[o[i]], ids[o[i]]);
}
void sameIndex(const vector<IndexRecord::RecordInfo>& a, const vector<IndexRecord::RecordInfo>& b, const char* msg) {
  vs_assert(a.size() == b.size(), msg);
  for (size_t i = 0; i < a.size(); ++i) vs_assert(a[i] == b[i], msg);
}
FileFormat::FileHeader header(const char* path) { FileFormat::FileHeader h; memcpy((void*)&h, vsfs_data(path), sizeof h); return h; }
constexpr int N = TIER(3, 4);
// Records with symbolic fields; times ascending unless `mixed`
void make(Dev& a, Dev& b, Rec* r, StreamId* ids, int from, int n, bool mixed, size_t maxSize = 2) {
  for (int i = from; i < n; ++i) {
    symRec(r[i], maxSize, i == 0);
    if (!mixed && i > 0) vs_assume(r[i - 1].ts <= r[i].ts);
    Dev& d = vs_bool("second stream") ? b : a; ids[i] = d.getStreamId();
    d.make(r[i].ts, r[i].type, r[i].fmt, r[i].data, r[i].size);
  }
}
}
// index written by a plain synchronous write; then thrown away and rebuilt from the records; then repaired in place
VS_ENTRY(h_index_rebuilt) {
  Dev a(RecordableTypeId::UnitTest1), b(RecordableTypeId::UnitTest2);
  RecordFileWriter w; w.addRecordable(&a); w.addRecordable(&b);
  Rec r[N]; StreamId ids[N];
  vs_assert(w.createFileAsync("/f.vrs") == 0, "the file is created");
  make(a, b, r, ids, 0, 2, false, 1);
  vs_assert(w.waitForFileClosed() == 0, "the file is closed without error");
  vector<IndexRecord::RecordInfo> first;
  { RecordFileReader rd; vs_assert(rd.openFile("/f.vrs") == 0, "the file opens"); vs_assert(rd.hasIndex(), "the file has an index"); first = rd.getIndex(); indexTruth(rd, r, ids, 2); }
  // lose the index: its offset was never written, or the file ends at the last record, or inside the index
  FileFormat::FileHeader h = header("/f.vrs");
  int how = (int)vs_choose(3, "how the index is lost");
  int64_t ixOff = h.indexRecordOffset;
  if (how == 0) { int64_t z = 0; memcpy(vsfs_data("/f.vrs") + offsetof(FileFormat::FileHeader, indexRecordOffset), &z, 8); vsfs_truncate("/f.vrs", (size_t)ixOff); }
  else if (how == 1) vsfs_truncate("/f.vrs", (size_t)ixOff);
  else vsfs_truncate("/f.vrs", (size_t)ixOff + vs_choose((uint64_t)(vsfs_size("/f.vrs") - ixOff), "cut"));
  bool repair = vs_bool("repair");
  { RecordFileReader rd; vs_assert(rd.openFile("/f.vrs", repair) == 0, "a file without its index opens"); sameIndex(rd.getIndex(), first, "the rebuilt index is the one that was lost"); indexTruth(rd, r, ids, 2); }
  { RecordFileReader rd; vs_assert(rd.openFile("/f.vrs") == 0, "the file opens again"); if (repair) vs_assert(rd.hasIndex(), "a repaired file has its index back"); sameIndex(rd.getIndex(), first, "the index after the repair is the one that was lost"); indexTruth(rd, r, ids, 2); vs_reach("reopened"); }
}
// index at the front: preallocated from a guess that may be right, too small or too big
VS_ENTRY(h_index_preallocated) {
  Dev a(RecordableTypeId::UnitTest1), b(RecordableTypeId::UnitTest2);
  RecordFileWriter w; w.addRecordable(&a); w.addRecordable(&b);
  auto guess = std::make_unique<std::deque<IndexRecord::DiskRecordInfo>>();
  size_t g = vs_choose(5, "guess");
  for (size_t i = 0; i < g; ++i) guess->push_back(IndexRecord::DiskRecordInfo((double)i, 1, a.getStreamId(), Record::Type::DATA));
  vs_assert(w.preallocateIndex(std::move(guess)) == 0, "preallocating succeeds before the file is open");
  Rec r[N]; StreamId ids[N];
  vs_assert(w.createFileAsync("/f.vrs") == 0, "the file is created");
  make(a, b, r, ids, 0, 2, true);
  vs_assert(w.waitForFileClosed() == 0, "the file is closed without error");
  RecordFileReader rd; vs_assert(rd.openFile("/f.vrs") == 0, "the file opens"); vs_assert(rd.hasIndex(), "the file has an index");
  indexTruth(rd, r, ids, 2);
  vs_reach("read");
}
// head file with the index, records in chunk files of any size limit; also if the last part of the index was lost
VS_ENTRY(h_index_split) {
  Dev a(RecordableTypeId::UnitTest1), b(RecordableTypeId::UnitTest2);
  Chunked w; w.addRecordable(&a); w.addRecordable(&b);
  Rec r[N]; StreamId ids[N];
  vs_assert(w.createChunkedFile("/f.vrs") == 0, "the file is created");
  static const uint64_t lim[] = {1, 40, 70, 100, 1 << 20};
  w.chunkSize(lim[vs_choose(5, "chunk size")]);
  for (int i = 0; i < N; ++i) {
    r[i].ts = symTime("ts"); if (i) vs_assume(r[i - 1].ts <= r[i].ts && (r[i - 1].ts < r[i].ts || i < 2)); r[i].type = i == 1 ? symType("type") : Record::Type::DATA; r[i].fmt = vs_u32("fmt"); r[i].size = i; vs_sym_bytes(r[i].data, r[i].size, "data");
    Dev& d = vs_bool("second stream") ? b : a; ids[i] = d.getStreamId();
    d.make(r[i].ts, r[i].type, r[i].fmt, r[i].data, r[i].size);
    if (vs_bool("flush")) w.writeRecordsAsync(r[i].ts);
  }
  vs_assert(w.waitForFileClosed() == 0, "the file is closed without error");
  vector<IndexRecord::RecordInfo> first;
  { RecordFileReader rd; vs_assert(rd.openFile("/f.vrs") == 0, "the file opens"); vs_assert(rd.hasIndex(), "the file has an index"); first = rd.getIndex(); indexTruth(rd, r, ids, N); }
  vs_reach("read");
  // the tail of the head file is lost: the records are found again
  FileFormat::FileHeader h = header("/f.vrs");
  int64_t size = vsfs_size("/f.vrs"), ix = h.indexRecordOffset;
  vs_assert(ix > 0 && ix < size, "the head file holds the index");
  int64_t room = size - ix - (int64_t)sizeof(FileFormat::RecordHeader);
  vs_assume(room > 0);
  vsfs_truncate("/f.vrs", (size_t)(size - 1 - (int64_t)vs_range(0, (uint64_t)(room < 24 ? room : 24) - 1, "lost bytes")));
  RecordFileReader rd; vs_assert(rd.openFile("/f.vrs") == 0, "a file with an incomplete index opens");
  // the head lost bytes, so every offset moved; all else is as before
  const auto& again = rd.getIndex(); vs_assert(again.size() == first.size(), "the rebuilt index has every record");
  for (size_t i = 0; i + 1 < again.size(); ++i) vs_assert(again[i + 1].fileOffset - again[i].fileOffset == first[i + 1].fileOffset - first[i].fileOffset, "the rebuilt index is the one that was lost");
  indexTruth(rd, r, ids, N);
  vs_reach("rebuilt");
}
