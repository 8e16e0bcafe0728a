// C34, C02: writing from the background thread, under every schedule with few preemptions.
#include <thread>
#include "vsvrs.h"
using namespace vrs;
namespace {
void checkAll(const char* path, const Rec* r, const StreamId* ids, int n, bool mustBeSorted) {
  RecordFileReader rd;
  vs_assert(rd.openFile(path) == 0, "a file that was written without error opens");
  vs_assert(rd.getRecordCount() == (uint32_t)n, "every record written is in the file, once");
  KeepPlayer p;
  for (int i = 0; i < n; ++i) rd.setStreamPlayer(ids[i], &p);
  vs_assert(rd.readAllRecords() == 0, "a file that was written without error reads without error");
  vs_assert((int)p.got.size() == n, "every record written is read, once");
  auto o = fileOrder(r, ids, n);
  for (int i = 0; i < n; ++i) sameRec(p.got[i], r[o[i]], ids[o[i]]);
}
}
VS_ENTRY(h_async_batches) {
  Dev a(RecordableTypeId::UnitTest1), b(RecordableTypeId::UnitTest2);
  RecordFileWriter w; w.addRecordable(&a); w.addRecordable(&b);
  constexpr int N = 3;
  Rec r[N]; StreamId ids[N];
  vs_assert(w.createFileAsync("/f.vrs") == 0, "the file is created");
  double limit = symTime("limit");
  for (int i = 0; i < N; ++i) {
    r[i].ts = symTime("ts"); r[i].type = Record::Type::DATA; r[i].fmt = vs_u32("fmt"); r[i].size = 1; vs_sym_bytes(r[i].data, 1, "data");
    Dev& d = i == 1 ? b : a; ids[i] = d.getStreamId();
    d.make(r[i].ts, r[i].type, r[i].fmt, r[i].data, r[i].size);
    if (i == 0) vs_assert(w.writeRecordsAsync(limit) == 0, "a batch is accepted");
  }
  vs_assert(w.waitForFileClosed() == 0, "the file is closed without error");
  vs_reach("written");
  checkAll("/f.vrs", r, ids, N, true);
  vs_reach("read");
}
// Records collected by the background thread itself, next to those handed to it; with one stream added while the file is written.
VS_ENTRY(h_async_auto) {
  Dev a(RecordableTypeId::UnitTest1), b(RecordableTypeId::UnitTest2);
  RecordFileWriter w; w.addRecordable(&a);
  constexpr int N = 3;
  bool late = vs_choose(2, "late");
  if (!late) w.addRecordable(&b);
  Rec r[N]; StreamId ids[N];
  vs_assert(w.createFileAsync("/f.vrs") == 0, "the file is created");
  double limit = symTime("limit");
  vs_assert(w.autoWriteRecordsAsync([&] { return limit; }, 0.5) == 0, "the writer accepts to collect records by itself");
  vs_yield(); // the thread is in its wait
  for (int i = 0; i < N; ++i) {
    r[i].ts = symTime("ts"); r[i].type = Record::Type::DATA; r[i].fmt = vs_u32("fmt"); r[i].size = 1; vs_sym_bytes(r[i].data, 1, "data");
    if (i == 1 && late) w.addRecordable(&b);
    Dev& d = i == 1 ? b : a; ids[i] = d.getStreamId();
    d.make(r[i].ts, r[i].type, r[i].fmt, r[i].data, r[i].size);
    if (i == 1) vs_assert(w.writeRecordsAsync(limit) == 0, "a batch is accepted");
  }
  vs_assert(w.waitForFileClosed() == 0, "the file is closed without error");
  vs_reach("written");
  RecordFileReader rd;
  vs_assert(rd.openFile("/f.vrs") == 0, "a file that was written without error opens");
  KeepPlayer p;
  rd.setStreamPlayer(ids[0], &p); rd.setStreamPlayer(ids[1], &p);
  vs_assert(rd.readAllRecords() == 0, "a file that was written without error reads without error");
  vector<Got> data; for (auto& g : p.got) if (g.type == Record::Type::DATA) data.push_back(g);
  vs_assert((int)data.size() == N, "every record written is read, once");
  auto o = fileOrder(r, ids, N);
  for (int i = 0; i < N; ++i) sameRec(data[i], r[o[i]], ids[o[i]]);
  vs_reach("read");
}
// Records made by another thread, on the same stream and on one of its own, while batches are handed over.
VS_ENTRY(h_async_producer) {
  Dev a(RecordableTypeId::UnitTest1), b(RecordableTypeId::UnitTest2);
  RecordFileWriter w; w.addRecordable(&a); w.addRecordable(&b);
  constexpr int N = 3;
  Rec r[N]; StreamId ids[N];
  bool same = vs_choose(2, "same");
  for (int i = 0; i < N; ++i) { r[i].ts = symTime("ts"); r[i].type = Record::Type::DATA; r[i].fmt = vs_u32("fmt"); r[i].size = 1; vs_sym_bytes(r[i].data, 1, "data"); }
  double limit = symTime("limit");
  // times equal on one stream are told apart by which came first: leave that to the sequential checks
  vs_assume(r[0].ts != r[1].ts && r[1].ts != r[2].ts && r[0].ts != r[2].ts);
  vs_assert(w.createFileAsync("/f.vrs") == 0, "the file is created");
  Dev& other = same ? a : b;
  std::thread t([&] { for (int i = 0; i < 2; ++i) other.make(r[i].ts, r[i].type, r[i].fmt, r[i].data, r[i].size); });
  a.make(r[2].ts, r[2].type, r[2].fmt, r[2].data, r[2].size);
  vs_assert(w.writeRecordsAsync(limit) == 0, "a batch is accepted");
  t.join();
  ids[0] = ids[1] = other.getStreamId(); ids[2] = a.getStreamId();
  vs_assert(w.waitForFileClosed() == 0, "the file is closed without error");
  vs_reach("written");
  checkAll("/f.vrs", r, ids, N, true);
  vs_reach("read");
}
// Old records are purged in the background: those as recent as the limit are kept, and so are those made while a file is written.
VS_ENTRY(h_async_purge) {
  Dev a(RecordableTypeId::UnitTest1);
  RecordFileWriter w; w.addRecordable(&a);
  constexpr int N = 3;
  Rec r[N];
  double limit = symTime("limit");
  vs_assert(w.autoPurgeRecords([&] { return limit; }, 0.5) == 0, "the writer accepts to purge records by itself");
  vs_yield();
  for (int i = 0; i < N; ++i) {
    r[i].ts = symTime("ts"); r[i].type = Record::Type::DATA; r[i].fmt = (uint32_t)i; r[i].size = 1; vs_sym_bytes(r[i].data, 1, "data");
    if (i) vs_assume(r[i].ts >= r[i - 1].ts);
    if (i == 2) vs_assert(w.createFileAsync("/f.vrs") == 0, "the file is created");
    a.make(r[i].ts, r[i].type, r[i].fmt, r[i].data, r[i].size);
  }
  vs_assert(w.waitForFileClosed() == 0, "the file is closed without error");
  vs_reach("written");
  RecordFileReader rd;
  vs_assert(rd.openFile("/f.vrs") == 0, "a file that was written without error opens");
  KeepPlayer p; rd.setStreamPlayer(a.getStreamId(), &p);
  vs_assert(rd.readAllRecords() == 0, "a file that was written without error reads without error");
  size_t at = 0;
  for (int i = 0; i < N; ++i) {
    bool here = at < p.got.size() && p.got[at].fmt == (uint32_t)i;
    if (here) { sameRec(p.got[at], r[i], a.getStreamId()); ++at; if (i < 2) vs_reach("kept"); }
    else { vs_assert(r[i].ts < limit, "a record as recent as the limit isn't purged"); vs_reach("purged"); }
  }
  vs_assert(at == p.got.size(), "no record is written twice");
  vs_reach("read");
}
// Records compressed by other threads are written in the order they would be without.
VS_ENTRY(h_async_pool) {
  Dev a(RecordableTypeId::UnitTest1);
  RecordFileWriter w; w.addRecordable(&a);
  w.setCompressionThreadPoolSize(2);
  a.setCompression(CompressionPreset::Lz4Fast);
  constexpr int N = 2;
  Rec r[N]; StreamId ids[N];
  vs_assert(w.createFileAsync("/f.vrs") == 0, "the file is created");
  for (int i = 0; i < N; ++i) {
    ids[i] = a.getStreamId();
    r[i].ts = symTime("ts"); r[i].type = Record::Type::DATA; r[i].fmt = (uint32_t)i; r[i].size = vs_choose(2, "size") ? 260 : 1; memset(r[i].data, 'a' + i, r[i].size); vs_sym_bytes(r[i].data, 1, "data");
    a.make(r[i].ts, r[i].type, r[i].fmt, r[i].data, r[i].size);
  }
  vs_assert(w.waitForFileClosed() == 0, "the file is closed without error");
  vs_reach("written");
  checkAll("/f.vrs", r, ids, N, true);
  vs_reach("read");
}
