// C08: the records waiting to be written: purging and collecting take what they should, in order.
#include <list>
#include "vsvrs.h"
#include <vrs/RecordManager.h>
using namespace vrs;
namespace {
struct M { double ts; Record::Type type; Record* rec; bool alive = true; };
Record* add(RecordManager& m, double ts, Record::Type t, size_t n = 2) { static const uint8_t d[64] = {1, 2}; return m.createRecord(ts, t, 1, DataSource(DataSourceChunk(d, n))); }
// what is collected: every record strictly older than the limit, none newer, oldest first, equal times in order of creation
void collect(RecordManager& m, vector<M>& model, double limit, const char* label) {
  std::list<Record*> got; m.collectOldRecords(limit, got);
  size_t k = 0; const Record* prev = nullptr;
  for (Record* r : got) {
    size_t i = 0; while (i < model.size() && !(model[i].rec == r && model[i].alive)) ++i;
    vs_assert(i < model.size(), "only records that were waiting are collected, each once");
    model[i].alive = false; ++k;
    vs_assert(model[i].ts == r->getTimestamp() && model[i].type == r->getRecordType(), "a collected record is as it was created");
    vs_assert(r->getTimestamp() <= limit, "no record newer than the limit is collected");
    if (prev) vs_assert(prev->getTimestamp() < r->getTimestamp() || (prev->getTimestamp() == r->getTimestamp() && prev->getCreationOrder() < r->getCreationOrder()), "records are collected oldest first, equal times in order of creation");
    prev = r;
  }
  for (auto& x : model) if (x.alive) vs_assert(x.ts >= limit, "every record older than the limit is collected");
  if (k) vs_reach(label);
  for (Record* r : got) r->recycle();
}
}
VS_ENTRY(h_purge) {
  RecordManager m; vector<M> model;
  constexpr int N = TIER(3, 4);
  bool purged = vs_bool("purge");
  for (int i = 0; i < N; ++i) { double ts = symTime("ts"); auto t = purged ? (Record::Type)(1 + vs_choose(4, "type")) : Record::Type::DATA; model.push_back({ts, t, add(m, ts, t)}); }
  if (purged) {
    double limit = symTime("purge limit");
    // what may go: older than the limit, not a tags record, and of states and configurations not the newest one
    int keepS = -1, keepC = -1, expect = 0;
    for (int i = 0; i < N; ++i) {
      M& x = model[(size_t)i];
      if (!(x.ts < limit) || x.type == Record::Type::TAGS) continue;
      int& k = x.type == Record::Type::STATE ? keepS : keepC;
      if (x.type != Record::Type::DATA && k < 0) { k = i; continue; }
      ++expect;
      if (x.type != Record::Type::DATA && model[(size_t)k].ts < x.ts) { model[(size_t)k].alive = false; k = i; }
      else x.alive = false;
    }
    // of equal times either is the newest
    vector<double> wantS, wantC;
    vs_assert(m.purgeOldRecords(limit, vs_bool("recycle")) == (uint32_t)expect, "purging removes the old records but the newest state and configuration and the tags");
    std::list<Record*> left; m.collectOldRecords(1e300, left);
    size_t alive = 0; double last = -1e300; bool sorted = true;
    for (auto& x : model) alive += x.alive;
    vs_assert(left.size() == alive, "purging removes the old records but the newest state and configuration and the tags");
    for (Record* r : left) {
      if (r->getTimestamp() < last) sorted = false;
      last = r->getTimestamp();
      size_t i = 0; while (i < model.size() && !(model[i].alive && model[i].ts == r->getTimestamp() && model[i].type == r->getRecordType())) ++i;
      vs_assert(i < model.size(), "purging keeps the newest state and configuration, the tags and every record that is not old");
      model[i].alive = false;
    }
    vs_assert(sorted, "records stay in order of time when old ones are purged");
    for (Record* r : left) r->recycle();
    vs_reach("purged");
    return;
  }
  collect(m, model, symTime("limit"), "collected");
  double ts = symTime("ts"); model.push_back({ts, Record::Type::DATA, add(m, ts, Record::Type::DATA)});
  collect(m, model, symTime("limit"), "collected later");
}
// purge, then more records, then collect up to a limit
VS_ENTRY(h_purge_collect) {
  RecordManager m; vector<M> model;
  constexpr int N = TIER(2, 3);
  for (int i = 0; i < N; ++i) { double ts = symTime("ts"); auto t = (Record::Type)(1 + vs_choose(4, "type")); add(m, ts, t); }
  m.purgeOldRecords(symTime("purge limit"));
  double ts = symTime("ts"); add(m, ts, Record::Type::DATA);
  double limit = symTime("limit");
  std::list<Record*> a, b; m.collectOldRecords(limit, a); m.collectOldRecords(1e300, b);
  for (Record* r : a) vs_assert(r->getTimestamp() <= limit, "no record newer than the limit is collected");
  for (Record* r : b) vs_assert(r->getTimestamp() >= limit, "every record older than the limit is collected");
  for (auto* l : {&a, &b}) { double last = -1e300; for (Record* r : *l) { vs_assert(r->getTimestamp() >= last, "records are collected oldest first"); last = r->getTimestamp(); } }
  vs_reach("collected after a purge");
  for (auto* l : {&a, &b}) for (Record* r : *l) r->recycle();
}
