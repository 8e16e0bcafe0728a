// C11: what a reader answers about the records of a file is what a plain scan of the list of records would answer.
#include "vsvrs.h"
using namespace vrs;
using Info = IndexRecord::RecordInfo;
namespace {
constexpr int N = TIER(3, 4);
// whole numbers of 256 to 511, as a double
double coarse(const char* n) { uint64_t b = 0x4070000000000000 | ((uint64_t)vs_u8(n) << 44); double d; memcpy(&d, &b, 8); return d; }
struct File {
  Dev a{RecordableTypeId::UnitTest1, "flavor/one"}, b{RecordableTypeId::UnitTest2, "flavor/two"}, c{RecordableTypeId::UnitTest2, "flavor/three"};
  StreamId id[3], never{RecordableTypeId::UnitTestRecordableClass, 7};
  RecordFileReader rd;
  // n records; streams 0 and 1 hold them; the third stream has none
  enum Times { Fixed, Coarse, Sorted, Any };
  void make(int n, int types, Times times, bool mixed = false, bool streams = true) {
    double last = 0;
    id[0] = a.getStreamId(); id[1] = b.getStreamId(); id[2] = c.getStreamId();
    RecordFileWriter w; w.addRecordable(&a); w.addRecordable(&b); w.addRecordable(&c);
    if (mixed) vs_assert(w.createFileAsync("/f.vrs") == 0, "the file is created");
    for (int i = 0; i < n; ++i) {
      double ts = times == Fixed ? i : times == Coarse ? coarse("ts") : symTime("ts"); uint8_t d[3] = {1, 2, 3};
      if ((times == Sorted || times == Coarse) && i) vs_assume(last <= ts);
      last = ts;
      Dev& x = (streams ? vs_bool("second stream") : i == 1) ? b : a;
      x.make(ts, (Record::Type)(3 - vs_choose((uint64_t)types, "type")), 1, d, (size_t)i % 4);
      if (mixed && vs_bool("batch")) { w.writeRecordsAsync(vs_f64("batch limit")); vs_yield(); }
    }
    vs_assert((mixed ? w.waitForFileClosed() : w.writeToFile("/f.vrs")) == 0, "the file is written");
    vs_assert(rd.openFile("/f.vrs") == 0, "the file opens");
    vs_assert((int)rd.getRecordCount() == n, "the reader reports as many records as were written");
  }
  bool in(const Info& r, int s, Record::Type t) const { return (s < 0 || r.streamId == id[s]) && (t == Record::Type::UNDEFINED || r.recordType == t); }
};
constexpr int TYPES = TIER(2, 3);
}
// first record at or after a time; nearest record; of any stream, of any type
VS_ENTRY(h_query_time) {
  File f; f.make(N, 2, File::Sorted);
  const auto& ix = f.rd.getIndex();
  double t = symTime("asked time");
  int s = (int)vs_choose(2, "asked stream") - 1; Record::Type type = vs_bool("any type") ? Record::Type::UNDEFINED : Record::Type::DATA;
  const Info* got; const Info* want = nullptr;
  for (const auto& r : ix) if (f.in(r, s, type) && r.timestamp >= t) { want = &r; break; }
  if (s < 0) got = type == Record::Type::UNDEFINED ? f.rd.getRecordByTime(t) : f.rd.getRecordByTime(type, t);
  else got = type == Record::Type::UNDEFINED ? f.rd.getRecordByTime(f.id[s], t) : f.rd.getRecordByTime(f.id[s], type, t);
  vs_assert(got == want, "the record found by time is the first one at or after that time");
  vs_reach(got ? "found by time" : "none at or after");
}
VS_ENTRY(h_query_nearest) {
  File f; f.make(3, 2, File::Coarse, false, TIER(false, true));
  const auto& ix = f.rd.getIndex();
  double t = 384, eps = (double)vs_choose(2, "epsilon") * 3;
  int s = (int)vs_choose(2, "asked stream") - 1; Record::Type type = vs_bool("any type") ? Record::Type::UNDEFINED : Record::Type::STATE;
  const Info* got = f.rd.getNearestRecordByTime(t, eps, s < 0 ? StreamId() : f.id[s], type);
  bool any = false, closer = false;
  double d = got ? std::abs(got->timestamp - t) : 0;
  for (const auto& r : ix) {
    if (!f.in(r, s, type)) continue;
    double e = std::abs(r.timestamp - t);
    any |= e <= eps; closer |= e < d;
  }
  vs_assert((got != nullptr) == any, "a nearest record is found exactly if there is one in the range");
  if (got) {
    vs_assert(got >= ix.data() && got < ix.data() + ix.size() && f.in(*got, s, type), "the nearest record is one of those asked for");
    vs_assert(d <= eps && !closer, "no record is nearer than the nearest one");
  }
  vs_reach(got ? "nearest" : "none near");
}
// records by number; counts; positions; whatever was asked before
VS_ENTRY(h_query_number) {
  constexpr int n = TIER(4, 5);
  File f; f.make(n, TYPES, File::Fixed, false, TIER(false, true));
  const auto& ix = f.rd.getIndex();
  for (int q = 0; q < 3; ++q) {
    int s = (int)vs_choose(2, "asked stream"); Record::Type type = (Record::Type)(3 - vs_choose(2, "asked type"));
    uint32_t k = vs_u32("asked number");
    const Info* want = nullptr; uint32_t hits = 0;
    for (const auto& r : ix) if (f.in(r, s, type) && hits++ == k) { want = &r; break; }
    vs_assert(f.rd.getRecord(f.id[s], type, k) == want, "the nth record of a stream and type is the nth one in the list of records");
  }
  vs_reach("queried");
}
VS_ENTRY(h_query_counts) {
  File f; f.make(N, 3, File::Any);
  const auto& ix = f.rd.getIndex();
  vs_assert(f.rd.getStreams().size() == 3, "the reader lists the streams of the file, with or without records");
  for (int s = 0; s < 4; ++s) {
    StreamId id = s < 3 ? f.id[s] : f.never;
    vector<const Info*> all; uint32_t types[3] = {};
    const Info *last[3] = {}, *first[3] = {};
    for (const auto& r : ix) if (r.streamId == id) { all.push_back(&r); int t = (int)r.recordType - 1; ++types[t]; last[t] = &r; if (!first[t]) first[t] = &r; }
    vs_assert(f.rd.getIndex(id) == all, "a stream's list of records is the records of that stream, in order");
    vs_assert(f.rd.getRecordCount(id) == all.size(), "the record count of a stream is the number of its records");
    for (int t = 0; t < 3; ++t) {
      vs_assert(f.rd.getRecordCount(id, (Record::Type)(t + 1)) == types[t], "the record count of a type is the number of its records");
      vs_assert(f.rd.getLastRecord(id, (Record::Type)(t + 1)) == last[t], "the last record of a type is the last of its records");
      vs_assert(f.rd.getRecord(id, (Record::Type)(t + 1), 0) == first[t], "the first record of a type is the first of its records");
    }
    for (uint32_t k = 0; k < all.size(); ++k) {
      vs_assert(f.rd.getRecord(id, k) == all[k], "the nth record of a stream is the nth in its list");
      vs_assert(f.rd.getRecordStreamIndex(all[k]) == k, "a record's place in its stream is its place in the stream's list");
    }
    vs_assert(f.rd.getRecord(id, (uint32_t)all.size()) == nullptr, "there is no record beyond the last");
  }
  double firstData = 0, lastData = 0; bool any = false;
  for (uint32_t i = 0; i < ix.size(); ++i) {
    vs_assert(f.rd.getRecord(i) == &ix[i] && f.rd.getRecordIndex(&ix[i]) == i, "a record's number is its place in the list");
    if (ix[i].recordType == Record::Type::DATA) { if (!any) firstData = ix[i].timestamp; lastData = ix[i].timestamp; any = true; }
  }
  vs_assert(f.rd.getRecord((uint32_t)ix.size()) == nullptr && f.rd.getRecordIndex(nullptr) == ix.size(), "there is no record beyond the last");
  vs_assert(f.rd.getFirstDataRecordTime() == firstData && f.rd.getLastDataRecordTime() == lastData, "the first and last data times are those of the first and last data records");
  vs_reach("counted");
}
// the size of each record on disk, records in order in the file or not
VS_ENTRY(h_query_sizes) {
  File f; f.make(N, 1, File::Any, true, false);
  const auto& ix = f.rd.getIndex();
  bool sorted = true;
  for (uint32_t i = 0; i < ix.size(); ++i) {
    FileFormat::RecordHeader h; memcpy((void*)&h, vsfs_data("/f.vrs") + ix[i].fileOffset, sizeof h);
    if (i && ix[i].fileOffset < ix[i - 1].fileOffset) sorted = false;
    vs_assert(f.rd.getRecordSize(i) == h.recordSize, "the size reported for a record is its size in the file");
  }
  vs_assert(f.rd.getRecordSize((uint32_t)ix.size()) == 0, "there is no record beyond the last");
  vs_reach(sorted ? "records in file order" : "records out of order");
}
// streams by type, flavor, name
VS_ENTRY(h_query_streams) {
  File f; f.make(0, 1, File::Fixed);
  uint16_t num = vs_u16("n");
  vs_assert(f.rd.getStreamForType(RecordableTypeId::UnitTest2, num) == (num == 0 ? f.id[1] : num == 1 ? f.id[2] : StreamId()), "the nth stream of a type is the nth in the list of streams");
  vs_assert(f.rd.getStreamForFlavor(RecordableTypeId::UnitTest2, "flavor/three", num) == (num == 0 ? f.id[2] : StreamId()), "the nth stream of a flavor is the nth in the list of streams");
  vs_assert(f.rd.getStreams(RecordableTypeId::UnitTest2) == (vector<StreamId>{f.id[1], f.id[2]}) && f.rd.getStreams(RecordableTypeId::Undefined).size() == 3 &&
            f.rd.getStreams(RecordableTypeId::Undefined, "flavor/one") == vector<StreamId>{f.id[0]} && f.rd.getStreams(RecordableTypeId::UnitTest1, "flavor/two").empty(), "streams are listed by type and flavor");
  for (int i = 0; i < 3; ++i) vs_assert(f.rd.getStreamForName(f.id[i].getNumericName()) == f.id[i], "a stream is found by its name");
  char tail = (char)vs_u8("tail"); vs_assume(tail != 0);
  string rel = std::to_string((int)RecordableTypeId::UnitTest2) + "+" + tail;
  StreamId want = tail == '1' ? f.id[1] : tail == '2' ? f.id[2] : StreamId();
  vs_assert(f.rd.getStreamForName(rel) == want, "a relative stream name is the nth stream of its type");
  vs_reach("streams");
}
// one reader, two files: what it answers about the second does not depend on what it was asked about the first
VS_ENTRY(h_query_reopen) {
  Dev a{RecordableTypeId::UnitTest1}, b{RecordableTypeId::UnitTest2};
  Record::Type types[2][3]; bool second[2][3]; int n[2];
  for (int k = 0; k < 2; ++k) {
    RecordFileWriter w; w.addRecordable(&a); w.addRecordable(&b);
    n[k] = k == 0 ? 3 : (int)vs_choose(4, "records");
    for (int i = 0; i < n[k]; ++i) { types[k][i] = (Record::Type)(3 - vs_choose(2, "type")); second[k][i] = i == 1; uint8_t d[3] = {1, 2, 3}; (i == 1 ? b : a).make(i, types[k][i], 1, d, (size_t)(i + 1 + k) % 4); }
    vs_assert(w.writeToFile(k ? "/g.vrs" : "/f.vrs") == 0, "the file is written");
  }
  RecordFileReader rd; vs_assert(rd.openFile("/f.vrs") == 0, "the file opens");
  StreamId id[2] = {a.getStreamId(), b.getStreamId()};
  if (vs_bool("numbers asked")) { rd.getRecord(id[0], Record::Type::DATA, (uint32_t)vs_range(0, 2, "asked number")); rd.getRecord(id[0], Record::Type::STATE, 0); }
  else if (vs_bool("sizes asked")) { rd.getRecordSize(0); rd.getRecordSize(1); }
  bool closed = vs_bool("close");
  if (closed) vs_assert(rd.closeFile() == 0 && rd.getRecordCount() == 0 && rd.getStreams().empty() && rd.getRecord(0) == nullptr && rd.getRecord(id[0], 0) == nullptr, "a closed reader has no records");
  if (vs_bool("missing file in between")) vs_assert(rd.openFile("/nowhere.vrs") != 0 && (!closed || (rd.getRecordCount() == 0 && rd.getRecord(id[0], 0) == nullptr)), "a reader that could not open a file has no records");
  vs_assert(rd.openFile("/g.vrs") == 0, "the file opens");
  const auto& ix = rd.getIndex();
  vs_assert((int)ix.size() == n[1], "the reader reports as many records as were written");
  uint32_t k = vs_u32("asked number");
  for (int s = 0; s < 2; ++s) for (int t = 2; t <= 3; ++t) {
    const Info* want = nullptr; uint32_t hits = 0, all = 0;
    for (const auto& r : ix) if (r.streamId == id[s]) { ++all; if (r.recordType == (Record::Type)t && hits++ == k) { want = &r; } }
    vs_assert(rd.getRecordCount(id[s]) == all && rd.getRecordCount(id[s], (Record::Type)t) == hits && rd.getIndex(id[s]).size() == all, "the record count of a stream is the number of its records");
    vs_assert(rd.getRecord(id[s], (Record::Type)t, k) == want, "the nth record of a stream and type is the nth one in the list of records");
  }
  for (uint32_t i = 0; i < ix.size(); ++i) {
    FileFormat::RecordHeader h; memcpy((void*)&h, vsfs_data("/g.vrs") + ix[i].fileOffset, sizeof h);
    vs_assert(rd.getRecordSize(i) == h.recordSize, "the size reported for a record is its size in the file");
  }
  vs_reach("second file read");
}
