// C01, C02, C12, C30: what is written is what is read, and the index says where it is.
#include "vsvrs.h"
using namespace vrs;
namespace {
// Reads the whole file through the reader and checks it against the records written, in file order
void checkFile(const char* path, const Rec* r, const StreamId* ids, int n) {
  RecordFileReader rd;
  vs_assert(rd.openFile(path) == 0, "a file that was written without error opens");
  vs_assert(rd.hasIndex(), "a file that was closed properly has an index");
  vs_assert(rd.getRecordCount() == (uint32_t)n, "every record written is in the file, once");
  KeepPlayer p;
  for (int i = 0; i < n; ++i) rd.setStreamPlayer(ids[i], &p);
  vs_assert(rd.readAllRecords() == 0, "a file that was written without error reads without error");
  vs_assert((int)p.got.size() == n, "every record written is read, once");
  auto o = fileOrder(r, ids, n);
  for (int i = 0; i < n; ++i) sameRec(p.got[i], r[o[i]], ids[o[i]]);
  vs_assert(rd.closeFile() == 0, "closing a reader succeeds");
}
}
// Any two or three records of two streams, any order of creation, uncompressed
VS_ENTRY(h_roundtrip) {
  constexpr int N = TIER(3, 4);
  Dev a(RecordableTypeId::UnitTest1), b(vs_bool("sameType") ? RecordableTypeId::UnitTest1 : RecordableTypeId::UnitTest2);
  vs_assert(a.getStreamId() != b.getStreamId(), "two devices have different stream ids");
  RecordFileWriter w;
  w.addRecordable(&a); w.addRecordable(&b);
  Rec r[N]; StreamId ids[N];
  for (int i = 0; i < N; ++i) {
    symRec(r[i], i == 0 ? 2 : 1);
    Dev& d = vs_bool("second stream") ? b : a;
    ids[i] = d.getStreamId();
    uint8_t tmp[8]; memcpy(tmp, r[i].data, r[i].size);
    vs_assert(d.make(r[i].ts, r[i].type, r[i].fmt, tmp, r[i].size) != nullptr, "a record is created");
    memset(tmp, 0xdd, sizeof tmp); // the caller's buffer is free for reuse at once
  }
  vs_assert(w.writeToFile("/f.vrs") == 0, "writing to a sound disk succeeds");
  vs_reach("written");
  checkFile("/f.vrs", r, ids, N);
  vs_assert(vsfs_open_handles() == 0, "no file is left open");
  vs_reach("read");
}
// Payload sizes around the thresholds of the format (compression starts at 250 bytes), compressed or not, any bytes in key places
VS_ENTRY(h_compressed) {
  static const size_t sizes[] = {0, 1, 63, 64, 65, 249, 250, 251, 300};
  static const CompressionPreset presets[] = {CompressionPreset::None, CompressionPreset::Lz4Fast, CompressionPreset::Lz4Tight, CompressionPreset::ZstdFast, CompressionPreset::ZstdTight};
  Dev a(RecordableTypeId::UnitTest1);
  a.setCompression(presets[vs_choose(5, "preset")]);
  RecordFileWriter w; w.addRecordable(&a);
  constexpr int N = 2;
  Rec r[N]; StreamId ids[N];
  for (int i = 0; i < N; ++i) {
    r[i].ts = i + 1; r[i].type = symType("type"); r[i].fmt = vs_u32("fmt"); r[i].size = sizes[i == 0 ? vs_choose(9, "size") : 2];
    uint8_t fill = vs_u8("fill"); memset(r[i].data, fill, r[i].size);
    if (r[i].size) { r[i].data[0] = vs_u8("first"); r[i].data[r[i].size / 2] = vs_u8("mid"); r[i].data[r[i].size - 1] = vs_u8("last"); }
    ids[i] = a.getStreamId();
    a.make(r[i].ts, r[i].type, r[i].fmt, r[i].data, r[i].size);
  }
  vs_assert(w.writeToFile("/f.vrs") == 0, "writing to a sound disk succeeds");
  checkFile("/f.vrs", r, ids, N);
  vs_reach("read");
}
// A record made of several chunks and of a part written directly is their concatenation
VS_ENTRY(h_chunks) {
  Dev a(RecordableTypeId::UnitTest1);
  RecordFileWriter w; w.addRecordable(&a);
  uint8_t b1[4], b2[4]; vs_sym_bytes(b1, 4, "b1"); vs_sym_bytes(b2, 4, "b2");
  size_t n1 = vs_choose(4, "n1"), n2 = vs_choose(4, "n2");
  struct Direct : DirectWriteRecordData { // 3 bytes, written when the record is
    uint8_t b[3]; size_t n = 3;
    size_t getDataSize() const override { return n; }
    int write(WriteFileHandler& f) const override { return f.write(b, n); }
  };
  struct D : Dev { using Dev::Dev; const Record* two(double t, const void* p, size_t n, const void* q, size_t m, std::unique_ptr<Direct>&& x) {
    DataSource s(DataSourceChunk(p, n), DataSourceChunk(q, m)); if (!x) return createRecord(t, Record::Type::DATA, 1, s); return createUncompressedRecord(t, Record::Type::DATA, 1, s, std::move(x)); } } d(RecordableTypeId::UnitTest2);
  size_t n3 = vs_bool("direct part") ? 3 : 0; uint8_t b3[3]; vs_sym_bytes(b3, 3, "b3");
  std::unique_ptr<Direct> x; if (n3) { x = std::make_unique<Direct>(); memcpy(x->b, b3, 3); }
  w.addRecordable(&d);
  d.two(1, b1, n1, b2, n2, std::move(x));
  vs_assert(w.writeToFile("/f.vrs") == 0, "writing to a sound disk succeeds");
  Rec r; r.ts = 1; r.fmt = 1; r.size = n1 + n2 + n3; memcpy(r.data, b1, n1); memcpy(r.data + n1, b2, n2); memcpy(r.data + n1 + n2, b3, n3);
  StreamId id = d.getStreamId();
  checkFile("/f.vrs", &r, &id, 1);
  vs_reach("read");
}
// Recycled record buffers never leak an older record's bytes into a newer one, and a file written later holds only later records
VS_ENTRY(h_reuse) {
  Dev a(RecordableTypeId::UnitTest1);
  RecordFileWriter w; w.addRecordable(&a);
  Rec r[3]; StreamId ids[3];
  static const size_t sz[] = {0, 1, 2, 60};
  for (int i = 0; i < 3; ++i) {
    r[i].ts = i == 0 ? 0 : symTime("ts"); if (i) vs_assume(r[i].ts >= 1); r[i].type = Record::Type::DATA; r[i].fmt = vs_u32("fmt"); r[i].size = sz[vs_choose(4, "size")]; vs_sym_bytes(r[i].data, r[i].size, "data"); ids[i] = a.getStreamId();
  }
  int mode = (int)vs_choose(3, "how the first one goes");
  a.make(r[0].ts, r[0].type, r[0].fmt, r[0].data, r[0].size);
  if (mode == 0) { vs_assert(w.writeToFile("/1.vrs") == 0, "writing to a sound disk succeeds"); }
  else w.purgeOldRecords(0.5, mode == 1);
  a.make(r[1].ts, r[1].type, r[1].fmt, r[1].data, r[1].size);
  a.make(r[2].ts, r[2].type, r[2].fmt, r[2].data, r[2].size);
  vs_assert(w.writeToFile("/2.vrs") == 0, "writing to a sound disk succeeds");
  if (mode == 0) checkFile("/1.vrs", r, ids, 1);
  checkFile("/2.vrs", r + 1, ids + 1, 2);
  vs_reach("read");
}
