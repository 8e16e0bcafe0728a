// C24: several files read together.
#include "vsvrs.h"
#include <set>
#include <vrs/MultiRecordFileReader.h>
#include <vrs/TagConventions.h>
using namespace vrs;
using Info = IndexRecord::RecordInfo;
using std::map;
using std::pair;
using std::set;
namespace {
struct Item { int file, stream; double ts; Record::Type type; };
const Record::Type kTypes[] = {Record::Type::DATA, Record::Type::STATE, Record::Type::CONFIGURATION};
struct One : StreamPlayer { int got = -1, count = 0; StreamId id; uint8_t b = 0; bool processRecordHeader(const CurrentRecord& r, DataReference& d) override { id = r.streamId; if (r.recordSize != 1) return false; d.useRawData(&b, 1); return true; } void processRecord(const CurrentRecord&, uint32_t) override { got = b; ++count; } };
// whole numbers of 256 to 511, as a double
double coarse(const char* n) { uint64_t b = 0x4070000000000000 | ((uint64_t)vs_u8(n) << 44); double d; memcpy(&d, &b, 8); return d; }
enum Times { Fixed, Sorted, Coarse };
// Files with streams of 2 types, their ids the same in different files
struct Files {
  static constexpr int MAXF = 3;
  int nf, each; vector<Item> items; vector<StreamId> ids[MAXF]; vector<string> paths; One players[MAXF][2];
  MultiRecordFileReader m; map<pair<int, int>, StreamId> uid; vector<const Info*> all; vector<int> order; // what the reader lists, and which item each is
  void make(int files, int records, int types, Times times, bool anyStream, int fewer = 0) {
    nf = files; each = records;
    for (int f = 0; f < nf; ++f) {
      TemporaryRecordableInstanceIdsResetter reset;
      Dev a(RecordableTypeId::UnitTest1, f ? "flavor/b" : "flavor/a"), b(f == 1 ? RecordableTypeId::UnitTest1 : RecordableTypeId::UnitTest2, "flavor/c");
      ids[f] = {a.getStreamId(), b.getStreamId()};
      RecordFileWriter w; w.addRecordable(&a); w.addRecordable(&b); w.setTag("file", f ? "other" : "first"); if (f) w.setTag("more", "x");
      a.setTag("which", f == 1 ? "second" : "one"); double prev = -1e9;
      for (int i = 0; i < each - (f ? fewer : 0); ++i) {
        Item x{f, anyStream ? (int)vs_choose(2, "stream") : i % 2, (double)i, kTypes[types > 1 ? vs_choose((uint64_t)types, "type") : 0]};
        if (times == Sorted) { x.ts = symTime("ts"); vs_assume(x.ts >= prev); } else if (times == Coarse) { x.ts = coarse("ts"); if (i) vs_assume(prev <= x.ts); }
        prev = x.ts; uint8_t n = (uint8_t)items.size(); (x.stream ? b : a).make(x.ts, x.type, 1, &n, 1); items.push_back(x);
      }
      paths.push_back("/f" + std::to_string(f) + ".vrs"); vs_assert(w.writeToFile(paths.back()) == 0, "the file is written");
    }
  }
  void open() {
    vs_assert(m.open(paths) == 0 && m.isOpened(), "the files open");
    vs_assert(m.getRecordCount() == items.size(), "every record of the files is listed once");
    vector<bool> seen(items.size());
    One any;
    for (uint32_t i = 0; i < items.size(); ++i) {
      const Info* r = m.getRecord(i); vs_assert(r != nullptr, "a record has a number");
      any.got = -1; vs_assert(m.readRecord(*r, &any, true) == 0 && any.got >= 0 && any.got < (int)items.size(), "a record is read from its file");
      int k = any.got; const Item& x = items[k];
      vs_assert(!seen[k], "every record of the files is listed once"); seen[k] = true;
      vs_assert(r->timestamp == x.ts && r->recordType == x.type && r->streamId == ids[x.file][x.stream] && any.id == r->streamId, "a record is listed with its time, type and stream");
      StreamId u = m.getUniqueStreamId(r); auto f = uid.emplace(std::make_pair(x.file, x.stream), u);
      vs_assert(f.first->second == u, "a stream has one id"); vs_assert(u.getTypeId() == r->streamId.getTypeId(), "the id of a stream keeps its type");
      if (x.file == 0) vs_assert(u == r->streamId, "the streams of the first file keep their ids");
      if (i) {
        const Info* p = all.back(); int j = order.back(); StreamId v = m.getUniqueStreamId(p);
        vs_assert(p->timestamp < r->timestamp || (p->timestamp == r->timestamp && (v < u || (v == u && j < k))), "records are in order of time, stream and place");
      }
      all.push_back(r); order.push_back(k);
    }
    vs_assert(m.getRecord((uint32_t)items.size()) == nullptr, "there is no record after the last");
    set<StreamId> us; for (auto& e : uid) vs_assert(us.insert(e.second).second, "each stream has an id of its own");
    vs_assert(m.getStreams().size() == 2 * (size_t)nf, "every stream is listed"); for (auto u : us) vs_assert(m.getStreams().count(u) == 1, "every stream is listed");
  }
};
}
VS_ENTRY(h_multi_index) {
  Files f; f.make(TIER(2, 3), 2, 1, Sorted, true, TIER(0, 1)); f.open(); auto& m = f.m;
  for (uint32_t i = 0; i < f.all.size(); ++i) { vs_assert(m.getRecordIndex(f.all[i]) == i, "a record's number is its place"); vs_assert(m.getRecordSize(i) == 33, "the size of a record is that in its file"); }
  Info odd(0, 0, StreamId(), Record::Type::DATA); vs_assert(m.getRecordIndex(&odd) == f.all.size() && m.getRecordIndex(nullptr) == f.all.size(), "what is not a record has no place");
  vs_reach("read");
}
// what is asked by stream and type
VS_ENTRY(h_multi_streams) {
  Files f; bool ty = vs_choose(2, "types or times"); f.make(2, 2, ty ? 2 : 1, ty ? Fixed : Sorted, true); f.open(); auto& m = f.m;
  for (auto u : m.getStreams()) {
    vector<const Info*> mine; for (auto* r : f.all) if (m.getUniqueStreamId(r) == u) mine.push_back(r);
    vs_assert(m.getIndex(u) == mine && m.getRecordCount(u) == mine.size(), "the records of a stream are those listed under its id");
    for (uint32_t k = 0; k <= mine.size(); ++k) vs_assert(m.getRecord(u, k) == (k < mine.size() ? mine[k] : nullptr), "the nth record of a stream is the nth of those listed");
    for (auto t : kTypes) {
      vector<const Info*> of; for (auto* r : mine) if (r->recordType == t) of.push_back(r);
      vs_assert(m.getRecordCount(u, t) == of.size() && m.getLastRecord(u, t) == (of.empty() ? nullptr : of.back()), "the records of a type are those listed");
      for (uint32_t k = 0; k <= of.size(); ++k) vs_assert(m.getRecord(u, t, k) == (k < of.size() ? of[k] : nullptr), "the nth record of a type is the nth of those listed");
    }
  }
  for (auto t : kTypes) {
    const Info *first = nullptr, *last = nullptr; for (auto* r : f.all) if (r->recordType == t) { if (!first) first = r; last = r; }
    vs_assert(m.getFirstRecord(t) == first && m.getLastRecord(t) == last, "the first and last record of a type are those listed");
  }
  StreamId never(RecordableTypeId::UnitTest1, 9); vs_assert(m.getIndex(never).empty() && m.getRecord(never, 0) == nullptr && m.getRecordCount(never) == 0, "there are no records of an unknown stream");
  // a player attached to a stream reads that stream
  One p; auto at = *std::next(m.getStreams().begin(), (long)vs_choose(m.getStreams().size(), "read")); m.setStreamPlayer(at, &p); int n = 0;
  for (uint32_t i = 0; i < f.all.size(); ++i) { p.got = -1; vs_assert(m.readRecord(*f.all[i]) == 0, "a record reads"); bool mine = m.getUniqueStreamId(f.all[i]) == at; n += mine; vs_assert(mine ? p.got == f.order[i] : p.got == -1, "a player reads the records of its stream"); }
  vs_assert(p.count == n, "a player reads each record once");
  vs_reach("streams");
}
VS_ENTRY(h_multi_time) {
  Files f; f.make(2, 2, 1, Sorted, TIER(false, true)); f.open(); auto& m = f.m;
  double t = symTime("asked time"); unsigned how = (unsigned)vs_choose(3, "asked by"); StreamId s = *std::next(m.getStreams().begin(), (long)vs_choose(m.getStreams().size(), "asked stream")); const Info* want = nullptr;
  Record::Type type = TIER(Record::Type::DATA, kTypes[vs_choose(2, "asked type")]);
  for (auto* r : f.all) if (r->timestamp >= t && (how == 0 || m.getUniqueStreamId(r) == s) && (how < 2 || r->recordType == type)) { want = r; break; }
  const Info* got = how == 0 ? m.getRecordByTime(t) : how == 1 ? m.getRecordByTime(s, t) : m.getRecordByTime(s, type, t);
  vs_assert(got == want, "the record found by time is the first one at or after that time");
  vs_reach(got ? "found by time" : "none at or after");
}
VS_ENTRY(h_multi_nearest) {
  Files f; f.make(2, 2, 2, Coarse, TIER(false, true), TIER(1, 0)); f.open(); auto& m = f.m;
  double t = 384, eps = (double)vs_choose(2, "epsilon") * 3; unsigned si = (unsigned)vs_choose(1 + m.getStreams().size(), "asked stream"); StreamId s; if (si) s = *std::next(m.getStreams().begin(), (long)si - 1);
  Record::Type type = vs_bool("any type") ? Record::Type::UNDEFINED : Record::Type::STATE;
  const Info* got = m.getNearestRecordByTime(t, eps, s, type); bool any = false, closer = false, listed = false; double d = got ? std::abs(got->timestamp - t) : 0;
  for (auto* r : f.all) { if ((si && m.getUniqueStreamId(r) != s) || (type != Record::Type::UNDEFINED && r->recordType != type)) continue; double e = std::abs(r->timestamp - t); any |= e <= eps; closer |= e < d; listed |= r == got; }
  vs_assert((got != nullptr) == any, "a nearest record is found exactly if there is one in the range");
  if (got) vs_assert(listed && d <= eps && !closer, "no record asked for is nearer than the nearest one");
  vs_reach(got ? "nearest" : "none near");
}
// which files may be read together; tags and streams
VS_ENTRY(h_multi_tags) {
  const int nf = 3; vector<string> paths; string v[2][nf]; unsigned which = (unsigned)vs_choose(3, "related tags");
  const string names[2] = {which == 2 ? "mine" : tag_conventions::kCaptureTimeEpoch, which == 2 ? "ours" : tag_conventions::kSessionId};
  for (int f = 0; f < nf; ++f) {
    TemporaryRecordableInstanceIdsResetter reset; Dev a(RecordableTypeId::UnitTest1, f ? "flavor/b" : "flavor/a");
    RecordFileWriter w; w.addRecordable(&a);
    for (int k = 0; k < 2; ++k) { if ((k == 0 || f == 2) && vs_choose(2, "has a value")) { uint8_t c = vs_u8("value"); vs_assume(c != 0); v[k][f] = string(1, (char)c); } if (!v[k][f].empty()) w.setTag(names[k], v[k][f]); }
    w.setTag("f" + std::to_string(f), "only"); a.setTag("same", "tag"); if (f == 2) a.setTag("which", "last");
    uint8_t n = (uint8_t)f; a.make(f, Record::Type::DATA, 1, &n, 1); paths.push_back("/f" + std::to_string(f) + ".vrs"); vs_assert(w.writeToFile(paths.back()) == 0, "the file is written");
  }
  MultiRecordFileReader m; if (which == 1) m.setRelatedFileTags({names[1]}); else if (which == 2) m.setRelatedFileTags({names[0], names[1]});
  bool gone = vs_choose(4, "missing file") == 3; if (gone) paths[1] = "/none.vrs";
  bool related = true;
  for (int k = which == 1; k < 2; ++k) { set<string> s; for (auto& x : v[k]) if (!x.empty()) s.insert(x); related = related && s.size() <= 1; }
  int rc = m.open(paths);
  vs_assert((rc == 0) == (related && !gone) && m.isOpened() == (rc == 0), "files open together unless one doesn't or their related tags differ");
  if (rc) { vs_assert(m.getRecordCount() == 0 && m.getRecord(0u) == nullptr && m.getStreams().empty(), "nothing is read from files that don't open together"); vs_reach(gone ? "one is missing" : "not related"); return; }
  for (int f = 0; f < nf; ++f) vs_assert(m.getTag("f" + std::to_string(f)) == "only", "the tags of every file are there");
  for (int k = 0; k < 2; ++k) { bool in = false; for (auto& x : v[k]) in |= m.getTag(names[k]) == x; vs_assert(in, "the value of a tag is that in one of the files"); }
  vs_assert(m.getStreams().size() == 3 && m.getStreams(RecordableTypeId::UnitTest1).size() == 3 && m.getStreams(RecordableTypeId::UnitTest2).empty() && m.getStreams(RecordableTypeId::Undefined, "flavor/b").size() == 2, "streams are found by type and flavor");
  for (uint32_t i = 0; i < 3; ++i) {
    StreamId u = m.getUniqueStreamId(m.getRecord(i)); One p;
    vs_assert(m.getFlavor(u) == (i ? "flavor/b" : "flavor/a") && m.getTag(u, "which") == (i == 2 ? "last" : ""), "the flavor and tags of a stream are its own");
    vs_assert(m.getStreamForName(u.getNumericName()) == u && m.getStreamForSerialNumber(m.getSerialNumber(u)) == u && !m.getSerialNumber(u).empty(), "a stream is found by its name and serial number");
    if (i == 2) vs_assert(m.getStreamForTag("which", "last") == u && m.getStreamForTag("which", "last", RecordableTypeId::UnitTest1) == u && !m.getStreamForTag("which", "last", RecordableTypeId::UnitTest2).isValid(), "a stream is found by its tag and type");
  }
  vs_assert(m.getStreamForTag("same", "tag") == *m.getStreams().begin(), "the first stream with a tag is found");
  vs_assert(m.close() == 0 && !m.isOpened() && m.getRecordCount() == 0, "files that were opened are closed");
  vs_reach("related");
}
