// Shared pieces of the record file harnesses: recordables, a player that keeps what it reads, write and compare helpers.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "vs.h"
#include "memfs.h"
#include <vrs/DataSource.h>
#include <vrs/ErrorCode.h>
#include <vrs/FileFormat.h>
#include <vrs/IndexRecord.h>
#include <vrs/RecordFileReader.h>
#include <vrs/RecordFileWriter.h>
#include <vrs/RecordFormatStreamPlayer.h>
#include <vrs/Recordable.h>
#include <vrs/StreamPlayer.h>
#ifdef VS_THOROUGH
#define TIER(q, t) (t)
#else
#define TIER(q, t) (q)
#endif
using vrs::Record;
using vrs::StreamId;
using vrs::RecordableTypeId;
using std::string;
using std::vector;

struct Dev : vrs::Recordable {
  explicit Dev(RecordableTypeId t, const string& flavor = {}) : Recordable(t, flavor) {}
  const Record* createConfigurationRecord() override { return nullptr; }
  const Record* createStateRecord() override { return nullptr; }
  const Record* make(double ts, Record::Type t, uint32_t fmt, const void* p, size_t n) { return createRecord(ts, t, fmt, vrs::DataSource(vrs::DataSourceChunk(p, n))); }
};
// What a record should be, whether written or expected
struct Rec {
  int stream = 0;
  double ts = 0;
  Record::Type type = Record::Type::DATA;
  uint32_t fmt = 0;
  size_t size = 0;
  uint8_t data[300];
};
struct Got { StreamId id; double ts; Record::Type type; uint32_t fmt; uint32_t size; uint32_t readSize; vector<uint8_t> data; };
struct KeepPlayer : vrs::StreamPlayer {
  vector<Got> got;
  vector<uint8_t> buf;
  bool processRecordHeader(const vrs::CurrentRecord& r, vrs::DataReference& ref) override {
    buf.resize(r.recordSize);
    if (r.recordSize) ref.useVector(buf);
    else ref.useRawData(nullptr, 0);
    return true;
  }
  void processRecord(const vrs::CurrentRecord& r, uint32_t n) override {
    got.push_back({r.streamId, r.timestamp, r.recordType, r.formatVersion, r.recordSize, n, buf});
  }
};
inline uint64_t bitsOf(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
// finite, any sign
inline double symTime(const char* n) { double t = vs_f64(n); vs_assume(t >= -1e9 && t <= 1e9); return t; }
inline Record::Type symType(const char* n) { return (Record::Type)(1 + vs_choose(3, n)); }
// compares one read record to what was written, without branching on the bytes
inline void sameBytes(const uint8_t* a, const uint8_t* b, size_t n, const char* msg) { unsigned d = 0; for (size_t i = 0; i < n; ++i) d |= (unsigned)(a[i] ^ b[i]); vs_assert(d == 0, msg); }
inline void sameRec(const Got& g, const Rec& r, StreamId id, const char* what = "record") {
  vs_assert(g.id == id, "a record is read back under the stream it was written to");
  vs_assert(bitsOf(g.ts) == bitsOf(r.ts) || g.ts == r.ts, "a record is read back with the timestamp it was written with");
  vs_assert(g.type == r.type, "a record is read back with its record type");
  vs_assert(g.fmt == r.fmt, "a record is read back with its format version");
  vs_assert(g.size == r.size && g.readSize == r.size && g.data.size() == r.size, "a record is read back with its payload size");
  sameBytes(g.data.data(), r.data, r.size, "a record is read back with its payload bytes");
}
// File order of records: by time, then stream, then creation
inline bool recBefore(const Rec& a, StreamId ia, const Rec& b, StreamId ib) { if (a.ts < b.ts) return true; if (b.ts < a.ts) return false; return ia < ib; }
inline vector<int> fileOrder(const Rec* r, const StreamId* ids, int n) {
  vector<int> o;
  for (int i = 0; i < n; ++i) { size_t k = o.size(); while (k > 0 && recBefore(r[i], ids[i], r[o[k - 1]], ids[o[k - 1]])) --k; o.insert(o.begin() + (long)k, i); }
  return o;
}
inline void symRec(Rec& x, size_t maxSize, bool anyType = true) {
  x.ts = symTime("ts"); x.type = anyType ? symType("type") : Record::Type::DATA; x.fmt = vs_u32("fmt");
  x.size = vs_choose(maxSize + 1, "size"); vs_sym_bytes(x.data, x.size, "data");
}
