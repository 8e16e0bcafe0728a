// C25: filtered reading. C31: filtered copies and merges.
#include "vsvrs.h"
#include <set>
#include <vrs/DataLayout.h>
#include <vrs/DataLayoutConventions.h>
#include <vrs/DataPieces.h>
#include <vrs/utils/FilterCopy.h>
#include <vrs/utils/FilteredFileReader.h>
using namespace vrs;
using namespace vrs::utils;
using std::set;
using std::map;
namespace {
struct Item { double ts; int stream; Record::Type type; int n; };
struct Collect : StreamPlayer { vector<int> got; uint8_t b = 0; bool processRecordHeader(const CurrentRecord&, DataReference& r) override { r.useRawData(&b, 1); return true; } void processRecord(const CurrentRecord& r, uint32_t n) override { got.push_back(b); } };
const Record::Type kTypes[] = {Record::Type::CONFIGURATION, Record::Type::STATE, Record::Type::DATA};
}
// the records of the chosen streams and types in the time range, after the last configuration and state before it
namespace {
void filterRange(unsigned mode) { // absolute, relative, around, absolute after configurations and states
  const int N = mode == 3 ? 5 : TIER(3, 4); vector<Item> it; bool early = mode == 3; if (early) mode = 0;
  double prev = -1e9;
  Dev a(RecordableTypeId::UnitTest1), b(RecordableTypeId::UnitTest2); RecordFileWriter w; w.addRecordable(&a); w.addRecordable(&b);
  for (int i = 0; i < N; ++i) {
    Item x{0, i || early || TIER(0, 1) ? (int)vs_choose(2, "stream") : 0, kTypes[early ? i < 4 ? vs_choose(2, "type") : 2 : i ? TIER(2 * vs_choose(2, "type"), vs_choose(3, "type")) : vs_choose(3, "type")], i};
    if (early) x.ts = i; else if (mode == 0) { x.ts = symTime("ts"); vs_assume(x.ts >= prev); } else if (i == 1) { x.ts = symTime("ts"); vs_assume(x.ts >= 1 && x.ts <= 2); } else x.ts = i == 0 ? 1 : i + (double)vs_choose(2, "later");
    if (i) vs_assume(!(x.ts == prev) || x.stream >= it.back().stream); // created in the order of the file
    prev = x.ts; uint8_t n = (uint8_t)i; (x.stream ? b : a).make(x.ts, x.type, 1, &n, 1); it.push_back(x);
  }
  vs_assert(w.writeToFile("/f.vrs") == 0, "the file is written");
  FilteredFileReader f("/f.vrs"); RecordFilterParams p;
  unsigned combo = (unsigned)vs_choose(early ? TIER(2, 3) : TIER(mode ? 3 : 4, 12), "streams and types"); static const uint8_t kc[12][2] = {{0, 0}, {1, 3}, {2, 0}, {0, 2}, {1, 0}, {0, 1}, {0, 3}, {1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}}; unsigned streams = kc[combo][0], types = kc[combo][1]; // all, the first, all but the first
  set<int> ws = streams == 0 ? set<int>{0, 1} : streams == 1 ? set<int>{0} : set<int>{1};
  vs_assert(f.openFile(p) == 0, "the file opens");
  if (streams) { f.filter.streams = {streams == 1 ? a.getStreamId() : b.getStreamId()}; }
  if (types) { RecordFilterParams q; if (types == 1) q.excludeType("data"); else if (types == 2) q.includeType("data"); else { q.includeType("d"); q.includeType("config"); } f.applyFilters(q); if (streams) f.filter.streams = {streams == 1 ? a.getStreamId() : b.getStreamId()}; }
  auto wantType = [&](Record::Type t) { return types == 0 ? true : types == 1 ? t != Record::Type::DATA : types == 2 ? t == Record::Type::DATA : t != Record::Type::STATE; };
  double lo = std::numeric_limits<double>::lowest(), hi = std::numeric_limits<double>::max();
  if (mode == 0) {
    unsigned given = early ? 0 : (unsigned)vs_choose(TIER(2, 4), "from, to, both, neither");
    if (given == 0 || given == 2) { lo = symTime("from"); if (early) vs_assume(lo > 3 && lo <= 4); f.setMinTime(lo, false); }
    if (given == 1 || given == 2) { hi = symTime("to"); f.setMaxTime(hi, false); }
  } else {
    double first = hi, last = lo; bool any = false; // the times of the first and last data record of the chosen streams
    for (auto& x : it) if (ws.count(x.stream) && x.type == Record::Type::DATA) { if (!any) first = x.ts; any = true; last = x.ts; }
    if (!any) vs_silent_end();
    int m = TIER(mode == 2 ? 2 * (int)vs_choose(2, "from") - 1 : 2 * (int)vs_choose(3, "from") - 2, (int)vs_choose(5, "from") - 2), n = mode == 2 && TIER(1, 0) ? 2 * (int)vs_choose(2, "to") - 1 : (int)vs_choose(TIER(3, 5), "to") - TIER(1, 2);
    if (mode == 1) { f.setMinTime(m, true); lo = (m < 0 ? last : first) + m; f.setMaxTime(n, true); hi = (n < 0 ? last : first) + n; }
    else { f.setMinTime(m, true); f.setMaxTime(n, false); f.filter.aroundTime = true; double base = (m < 0 ? last : first) + m, d = (n < 0 ? -n : n) / 2.; lo = base - d; hi = base + d; }
  }
  Collect c; f.reader.setStreamPlayer(a.getStreamId(), &c); f.reader.setStreamPlayer(b.getStreamId(), &c);
  uint32_t count = f.iterateSafe();
  vector<int> want; size_t first = 0; while (first < it.size() && it[first].ts < lo) ++first;
  bool valid = lo <= hi;
  if (valid && first < it.size()) {
    set<std::pair<int, int>> seen;
    for (size_t k = first; k-- > 0;) if (it[k].type != Record::Type::DATA && wantType(it[k].type) && ws.count(it[k].stream) && seen.insert({it[k].stream, (int)it[k].type}).second) want.insert(want.begin(), (int)k);
  }
  size_t before = want.size();
  if (valid) for (size_t k = first; k < it.size() && it[k].ts <= hi; ++k) if (wantType(it[k].type) && ws.count(it[k].stream)) want.push_back((int)k);
  vs_assert(c.got == want, "the records read are those of the streams, types and time range asked for, after the last configuration and state before it");
  vs_assert(count == want.size() - before, "the records in the time range are counted");
  vs_reach(!valid ? "no time range" : before ? "last configuration or state before" : first == 0 ? "from the start" : "from the middle");
}
}
VS_ENTRY(h_filter_range) { filterRange(0); }
VS_ENTRY(h_filter_relative) { filterRange(1); }
VS_ENTRY(h_filter_around) { filterRange(2); }
VS_ENTRY(h_filter_before) { filterRange(3); }
// which streams a sequence of filters chooses
VS_ENTRY(h_filter_streams) {
  constexpr int N = TIER(3, 4); static const char* kf[] = {"", "f", "7"}; std::vector<std::unique_ptr<Dev>> devs; RecordFileWriter w; string flavor[N];
  TemporaryRecordableInstanceIdsResetter reset; Dev unused(RecordableTypeId::UnitTest1); // instance ids start at 2, relative ones at 1
  for (int i = 0; i < N; ++i) {
    flavor[i] = kf[TIER(i == 2, true) ? vs_choose(3, "flavor") : i == 0]; devs.push_back(std::make_unique<Dev>(i == 1 ? RecordableTypeId::UnitTest2 : RecordableTypeId::UnitTest1, flavor[i]));
    w.addRecordable(devs[i].get()); uint8_t n = (uint8_t)i; devs[i]->make(i, Record::Type::DATA, 1, &n, 1);
  }
  vs_assert(w.writeToFile("/f.vrs") == 0, "the file is written"); FilteredFileReader f("/f.vrs"); RecordFilterParams p; vs_assert(f.openFile(p) == 0, "the file opens");
  set<StreamId> want, every; for (auto& d : devs) every.insert(d->getStreamId()); unsigned F = (unsigned)vs_choose(TIER(3, 4), "filters"); bool any = false, text = vs_choose(2, "as one text"), ok = true; string all;
  for (unsigned k = 0; k < F; ++k) {
    bool plus = vs_choose(2, "include"); RecordableTypeId type = vs_choose(2, "filter type") ? RecordableTypeId::UnitTest2 : RecordableTypeId::UnitTest1; string base = std::to_string((int)type), name; set<StreamId> of; unsigned nth = 0;
    char num[2] = {(char)vs_range('0', '9', "digit"), 0}; unsigned form = (unsigned)vs_choose(5, "form"); uint16_t d = (uint16_t)(num[0] - '0');
    name = form == 0 ? base + "-" + num : form == 1 ? base + "+" + num : form == 2 ? base : form == 3 ? base + "-" : base + "-f";
    for (auto id : every) {
      int dev = 0; while (devs[dev]->getStreamId() != id) ++dev;
      if (id.getTypeId() != type) continue; ++nth;
      if (form == 0 ? id.getInstanceId() == d : form == 1 ? nth == d : form == 4 ? flavor[dev] == "f" : true) of.insert(id);
    }
    if (form == 0 && of.empty()) { // an instance the file doesn't have is the name of a flavor
      for (auto id : every) { int dev = 0; while (devs[dev]->getStreamId() != id) ++dev; if (id.getTypeId() == type && flavor[dev].size() == 1 && flavor[dev][0] == num[0]) of.insert(id); } }
    if (!any && !plus) want = every;
    any = true; for (auto id : of) { if (plus) want.insert(id); else want.erase(id); }
    if (text) all += string(k ? "," : "") + (plus ? (k ? "" : "+") : k ? "-" : "~") + name; else ok = (plus ? p.includeStream(name) : p.excludeStream(name)) && ok;
  }
  if (!any) want = every;
  if (text) ok = p.includeExcludeStream(all);
  vs_assert(ok, "filters are accepted");
  vs_assert(!p.includeStream("none") && !p.excludeStream("x-1") && !p.includeStream(""), "what doesn't start with a type is refused");
  f.applyFilters(p); vs_assert(f.filter.streams == want, "the streams chosen are those the filters add and remove, one after the other");
  set<StreamId> same; p.getIncludedStreams(f.reader, same); vs_assert(same == want, "the streams chosen are those the filters add and remove, one after the other");
  Collect c; for (auto id : every) f.reader.setStreamPlayer(id, &c); vector<int> got; for (int i = 0; i < N; ++i) if (want.count(devs[i]->getStreamId())) got.push_back(i);
  f.iterateSafe(); vs_assert(c.got == got, "the records read are those of the streams chosen");
  vs_reach("chosen");
}
namespace {
const char* kText[] = {"", "x", "longer text"};
// reads a file back: its streams in order, their records
struct Read { RecordFileReader r; std::vector<StreamId> ids; KeepPlayer p; };
void readBack(Read& x, const string& path) {
  vs_assert(x.r.openFile(path) == 0, "the copy opens");
  for (auto id : x.r.getStreams()) { x.ids.push_back(id); x.r.setStreamPlayer(id, &x.p); }
  vs_assert(x.r.readAllRecords() == 0, "the copy reads");
}
void sameRecord(const Got& g, const Rec& r, StreamId id) {
  vs_assert(g.id == id, "a record is copied to the copy of its stream");
  vs_assert(bitsOf(g.ts) == bitsOf(r.ts) || g.ts == r.ts, "a record keeps its timestamp");
  vs_assert(g.type == r.type && g.fmt == r.fmt, "a record keeps its type and format version");
  vs_assert(g.size == r.size && g.readSize == r.size && g.data.size() == r.size, "a record keeps its size");
  sameBytes(g.data.data(), r.data, r.size, "a record keeps its bytes");
}
}
// copying a file, or part of it
VS_ENTRY(h_filter_copy) {
  constexpr int N = TIER(3, 4); static Rec rec[N];
  bool same = vs_bool("streams of the same type");
  Dev a(RecordableTypeId::UnitTest1, "flavor/a"), b(same ? RecordableTypeId::UnitTest1 : RecordableTypeId::UnitTest2); RecordFileWriter w; w.addRecordable(&a); w.addRecordable(&b);
  unsigned part = (unsigned)vs_choose(4, "part"), how = part && TIER(true, false) ? part % 3 : (unsigned)vs_choose(3, "how"), text = TIER(part || how, false) ? 1 : (unsigned)vs_choose(4, "tags"); bool tags = text < 3; string ft = tags ? kText[text] : "", st = tags ? kText[2 - text] : "";
  if (tags) { w.setTag("file", ft); w.setTag("name", "file"); a.setTag("stream", st); b.setTag("stream", "b"); b.setTag("other", st); }
  a.setCompression(CompressionPreset::None);
  for (int i = 0; i < N; ++i) {
    Rec& x = rec[i]; if (i == 1) { x.ts = symTime("ts"); vs_assume(x.ts > 0 && x.ts < 1); } else x.ts = i;
    x.stream = (int)vs_choose(2, "stream"); x.type = kTypes[i == N - 1 ? 2 : TIER(2 * vs_choose(2, "type"), vs_choose(3, "type"))]; x.fmt = vs_u32("fmt");
    static const size_t ks[] = {5, 0, 280}; x.size = ks[vs_choose(i == 0 ? 3 : i == 1 ? 2 : 1, "size")]; vs_sym_bytes(x.data, x.size < 6 ? x.size : 6, "data"); for (size_t k = 6; k < x.size; ++k) x.data[k] = (uint8_t)(k / 16);
    (x.stream ? b : a).make(x.ts, x.type, x.fmt, x.data, x.size);
  }
  vs_assert(w.writeToFile("/f.vrs") == 0, "the file is written");
  FilteredFileReader f("/f.vrs"); vs_assert(f.openFile(RecordFilterParams()) == 0, "the file opens");
  set<int> ws{0, 1}; bool state = true; int from = 0;
  if (part == 1) { f.filter.streams = {b.getStreamId()}; ws = {1}; }
  else if (part == 2) { RecordFilterParams q; q.excludeType("configuration"); f.applyFilters(q); state = false; }
  else if (part == 3) { from = N - 1; f.setMinTime(rec[from].ts, false); }
  CopyOptions o(false); o.preallocateIndex = how != 1; o.compressionPoolSize = 0; if (how != 2) o.setCompressionPreset(CompressionPreset::None);
  bool over = tags && vs_bool("override tags"); if (over) { o.getTagOverrider().fileTags["file"] = "new"; o.getTagOverrider().fileTags["more"] = "more"; }
  vs_assert(filterCopy(f, "/copy.vrs", o) == 0, "the file is copied");
  vector<int> want; set<std::pair<int, int>> seen;
  for (int k = from; k-- > 0;) if (rec[k].type != Record::Type::DATA && ws.count(rec[k].stream) && seen.insert({rec[k].stream, (int)rec[k].type}).second) want.insert(want.begin(), k);
  for (int k = from; k < N; ++k) if (ws.count(rec[k].stream) && (state || rec[k].type != Record::Type::CONFIGURATION)) want.push_back(k);
  Read c; readBack(c, "/copy.vrs");
  vs_assert(c.ids.size() == ws.size(), "the copy has the streams chosen");
  int at = 0; StreamId ids[2];
  for (int s : ws) {
    StreamId id = c.ids[at++]; ids[s] = id; Dev& d = s ? b : a;
    vs_assert(id.getTypeId() == d.getStreamId().getTypeId() && id.getInstanceId() == (same && s && ws.size() == 2 ? 2 : 1), "a stream keeps its type, and its place among those of its type");
    vs_assert(c.r.getFlavor(id) == (s ? "" : "flavor/a"), "a stream keeps its flavor");
    map<string, string> t; if (tags) { if (s) t = {{"stream", "b"}, {"other", st}}; else t = {{"stream", st}}; }
    vs_assert(c.r.getTags(id).user == t, "a stream keeps its tags");
    vs_assert(c.r.getTags(id).vrs == f.reader.getTags(d.getStreamId()).vrs, "a stream keeps the tags of the library");
  }
  map<string, string> t; if (tags) t = {{"file", over ? "new" : ft}, {"name", "file"}}; if (over) t["more"] = "more";
  vs_assert(c.r.getTags() == t, "the copy has the tags of the file");
  vs_assert(c.p.got.size() == want.size() && c.r.getRecordCount() == want.size(), "each record of the part is copied, once");
  for (size_t k = 0; k < want.size(); ++k) sameRecord(c.p.got[k], rec[want[k]], ids[rec[want[k]].stream]);
  vs_assert(o.outRecordCopiedCount == want.size(), "the records copied are counted");
  vs_reach(part == 0 ? "whole" : part == 1 ? "one stream" : part == 2 ? "some types" : want.size() > 1 ? "from a time, with the configuration before it" : "from a time");
  vs_reach(over ? "tags overridden" : tags ? "tags" : "no tags");
}
namespace {
namespace conv = vrs::datalayout_conventions;
struct Cfg : AutoDataLayout { DataPieceValue<uint32_t> w{conv::kImageWidth}, h{conv::kImageHeight}; DataPieceString note{"note"}; DataPieceEnum<PixelFormat, uint32_t> pf{conv::kImagePixelFormat}; AutoDataLayoutEnd end; };
struct Fields : AutoDataLayout { DataPieceValue<uint16_t> x{"x"}; DataPieceString s{"s"}; DataPieceArray<uint8_t> a{"a", 2}; DataPieceVector<uint8_t> v{"v"}; DataPieceStringMap<uint8_t> m{"m"}; AutoDataLayoutEnd end; };
struct Note : AutoDataLayout { DataPieceString note{"note"}; DataPieceValue<uint32_t> missing{"missing"}; AutoDataLayoutEnd end; }; // what an edit expects: part of the fields, and one that is not there
struct FDev : Recordable {
  FDev() : Recordable(RecordableTypeId::UnitTest1) {}
  const Record* createConfigurationRecord() override { return nullptr; }
  const Record* createStateRecord() override { return nullptr; }
  using Recordable::addRecordFormat; using Recordable::createRecord;
};
struct Plan { bool verbatim, height, note, x, s, a, v, m, time, pixels; int skip; };
struct Edit : RecordFilterCopier {
  const Plan& p; uint16_t x; string s; vector<uint8_t> v; int n = -1;
  Edit(RecordFileReader& r, RecordFileWriter& w, StreamId id, const CopyOptions& o, const Plan& plan) : RecordFilterCopier(r, w, id, o), p{plan} {}
  bool shouldCopyVerbatim(const CurrentRecord& r) override { ++n; return p.verbatim && r.recordType == Record::Type::DATA; }
  void doHeaderEdits(CurrentRecord& r) override { if (p.time) { r.timestamp = r.timestamp * 2; r.formatVersion = 1; } }
  void doDataLayoutEdits(const CurrentRecord& r, size_t block, DataLayout& dl) override {
    if (r.recordType == Record::Type::CONFIGURATION) {
      Note& e = getLegacyLayout<Note>(dl, block); vs_assert(!e.missing.isMapped() && !e.missing.patchValue(3), "a field that is not there can't be edited");
      if (p.note) vs_assert(e.note.patchValue(s), "a field is edited");
      Cfg& c = getExpectedLayout<Cfg>(dl, block); if (p.height) c.h.patchValue(c.h.get() / 2);
    } else {
      if (n == p.skip) skipRecord();
      Fields& f = getExpectedLayout<Fields>(dl, block); uint8_t a2[2] = {7, 9};
      if (p.x) f.x.patchValue(x); if (p.s) f.s.patchValue(s); if (p.a) f.a.patchValue(a2, 2); if (p.v) f.v.patchValue(v); if (p.m) f.m.patchValue({{"k", 1}, {"new", 2}});
    }
  }
  void filterImage(const CurrentRecord&, size_t, const ContentBlock& b, vector<uint8_t>& px) override {
    vs_assert(b.image().getHeight() == 2 && px.size() == 4, "editing the copy doesn't change how the file is read");
    if (p.pixels) for (auto& q : px) q = (uint8_t)~q; if (p.height) px.resize(2);
  }
};
struct Seen { double ts; Record::Type type; uint32_t fmt; uint32_t w, h; string note; uint16_t x; string s; vector<uint8_t> a, v, px; map<string, uint8_t> m; string rest; };
struct SeePlayer : RecordFormatStreamPlayer {
  vector<Seen> seen;
  void processRecord(const CurrentRecord& r, uint32_t n) override { seen.push_back({r.timestamp, r.recordType, r.formatVersion}); RecordFormatStreamPlayer::processRecord(r, n); }
  bool onDataLayoutRead(const CurrentRecord& r, size_t i, DataLayout& dl) override {
    Seen& x = seen.back();
    if (r.recordType == Record::Type::CONFIGURATION) { Cfg& c = getExpectedLayout<Cfg>(dl, i); x.w = c.w.get(); x.h = c.h.get(); x.note = c.note.get(); }
    else { Fields& f = getExpectedLayout<Fields>(dl, i); x.x = f.x.get(); x.s = f.s.get(); f.a.get(x.a); f.v.get(x.v); f.m.get(x.m); }
    return true;
  }
  bool onImageRead(const CurrentRecord& r, size_t, const ContentBlock& b) override { auto& px = seen.back().px; px.resize(b.getBlockSize()); vs_assert(r.reader->read(px) == 0, "the image is read"); return true; }
  bool onCustomBlockRead(const CurrentRecord& r, size_t, const ContentBlock& b) override { auto& t = seen.back().rest; t.resize(b.getBlockSize()); vs_assert(r.reader->read(&t[0], (uint32_t)t.size()) == 0, "the block is read"); return true; }
};
bool eq(const string& a, const string& b) { if (a.size() != b.size()) return false; unsigned d = 0; for (size_t i = 0; i < a.size(); ++i) d |= (unsigned char)(a[i] ^ b[i]); return d == 0; }
bool eq(const vector<uint8_t>& a, const vector<uint8_t>& b) { if (a.size() != b.size()) return false; unsigned d = 0; for (size_t i = 0; i < a.size(); ++i) d |= (unsigned)(a[i] ^ b[i]); return d == 0; }
}
// copying a file while editing its records
VS_ENTRY(h_filter_edit) {
  FDev d; Cfg c; Fields f; ContentBlock L(ContentType::DATA_LAYOUT); bool tail = vs_bool("block at the end");
  d.addRecordFormat(Record::Type::CONFIGURATION, 1, L, {&c}); RecordFormat df = L + ContentBlock(ImageFormat::RAW); if (tail) df = df + ContentBlock(ContentType::CUSTOM);
  d.addRecordFormat(Record::Type::DATA, 1, df, {&f});
  RecordFileWriter w; w.addRecordable(&d); static const char* texts[] = {"", "n", "more text"};
  Seen want[3] = {}; want[0].type = Record::Type::CONFIGURATION; char sym[2]; vs_sym_bytes(sym, 2, "text");
  unsigned len = (unsigned)vs_choose(3, "lengths");
  want[0].w = 2; want[0].h = 2; want[0].note = len == 2 ? string(sym, 2) : texts[2 - len]; want[0].ts = 1; want[0].fmt = 1;
  c.w.set(2); c.h.set(2); c.note.stage(want[0].note); c.pf.set(PixelFormat::GREY8);
  d.createRecord(1, Record::Type::CONFIGURATION, 1, DataSource(c));
  for (int i = 1; i < 3; ++i) {
    Seen& x = want[i]; x.type = Record::Type::DATA; x.ts = 1 + i; x.fmt = 1; x.x = vs_u16("x"); x.s = i == 1 ? texts[len] : string(sym, 2); x.a.resize(2); vs_sym_bytes(x.a.data(), 2, "array"); x.v.resize(i == 1 ? len : 1); if (!x.v.empty()) vs_sym_bytes(x.v.data(), x.v.size(), "vector");
    if (i == 1) x.m["k"] = vs_u8("map"); x.px.resize(4); vs_sym_bytes(x.px.data(), 4, "pixels"); if (tail) x.rest = i == 1 ? "end" : "";
    f.x.set(x.x); f.s.stage(x.s); f.a.set(x.a); f.v.stage(x.v); f.m.stage(x.m);
    if (tail) d.createRecord(x.ts, x.type, 1, DataSource(f, DataSourceChunk(x.px), DataSourceChunk(x.rest.data(), x.rest.size()))); else d.createRecord(x.ts, x.type, 1, DataSource(f, DataSourceChunk(x.px)));
  }
  vs_assert(w.writeToFile("/f.vrs") == 0, "the file is written");
  unsigned which = (unsigned)vs_choose(9, "edit"); Plan p{}; p.skip = -1; // one edit at a time, or all of them
  bool all = which == 8; p.height = all || which == 1; p.note = all || which == 2; p.x = all || which == 3; p.s = all || which == 4; p.a = p.m = all || which == 5; p.v = all || which == 6; p.time = all || which == 7; p.pixels = all || which == 3;
  p.verbatim = TIER(which == 2, false) ? true : which == 0 && vs_bool("verbatim"); if (vs_bool("skip one") && !p.verbatim) p.skip = 1;
  FilteredFileReader r("/f.vrs"); vs_assert(r.openFile(RecordFilterParams()) == 0, "the file opens");
  CopyOptions o(false); o.compressionPoolSize = 0; o.setCompressionPreset(CompressionPreset::None);
  uint16_t nx = vs_u16("new x"); unsigned nl = (unsigned)vs_choose(3, "new length"); string ns = texts[nl]; vector<uint8_t> nv(2 - nl); if (!nv.empty()) vs_sym_bytes(nv.data(), nv.size(), "new vector");
  vs_assert(filterCopy(r, "/copy.vrs", o, [&](RecordFileReader& fr, RecordFileWriter& fw, StreamId id, const CopyOptions& co) { auto e = std::make_unique<Edit>(fr, fw, id, co, p); e->x = nx; e->s = ns; e->v = nv; return e; }) == 0, "the file is copied");
  vector<Seen> exp;
  for (int i = 0; i < 3; ++i) {
    if (i == p.skip) continue; Seen x = want[i];
    if (i == 0) { if (p.height) x.h = 1; if (p.note) x.note = ns; }
    else if (!p.verbatim) { if (p.x) x.x = nx; if (p.s) x.s = ns; if (p.a) x.a = {7, 9}; if (p.m) x.m = {{"k", 1}, {"new", 2}}; if (p.v) x.v = nv; if (p.pixels) for (auto& q : x.px) q = (uint8_t)~q; if (p.height) x.px.resize(2); }
    if (p.time) x.ts *= 2; exp.push_back(x);
  }
  RecordFileReader back; vs_assert(back.openFile("/copy.vrs") == 0, "the copy opens"); SeePlayer q; back.setStreamPlayer(*back.getStreams().begin(), &q); vs_assert(back.readAllRecords() == 0, "the copy reads");
  vs_assert(q.seen.size() == exp.size(), "each record is copied, but those skipped");
  for (size_t i = 0; i < exp.size(); ++i) {
    const Seen &g = q.seen[i], &e = exp[i];
    vs_assert(g.ts == e.ts && g.type == e.type && g.fmt == e.fmt, "a record has its header, edited as asked");
    vs_assert(g.w == e.w && g.h == e.h && eq(g.note, e.note) && g.x == e.x && eq(g.s, e.s) && eq(g.a, e.a) && eq(g.v, e.v) && g.m == e.m, "the fields of a record are as edited, the others as they were");
    vs_assert(eq(g.px, e.px), "the image of a record is as filtered"); vs_assert(eq(g.rest, e.rest), "the other blocks of a record are as they were");
  }
  vs_reach(p.verbatim ? "verbatim" : p.skip >= 0 ? "skipped" : which ? "edited" : "not edited");
}
// merging two files
VS_ENTRY(h_filter_merge) {
  constexpr int N = 4; static Rec rec[N]; bool merge = vs_bool("merge streams");
  // first file: one stream of each type; second file: two streams of the first type
  Dev a(RecordableTypeId::UnitTest1, "a"), b(RecordableTypeId::UnitTest2, "b"), c(RecordableTypeId::UnitTest1, "c"), d(RecordableTypeId::UnitTest1, "d"); Dev* dev[] = {&a, &b, &c, &d};
  RecordFileWriter w1, w2; w1.addRecordable(&a); w1.addRecordable(&b); w2.addRecordable(&c); w2.addRecordable(&d);
  unsigned tags = (unsigned)vs_choose(3, "tags"); // different, same, other names
  w1.setTag("t", "1"); w2.setTag(tags == 2 ? "u" : "t", tags == 1 ? "1" : "2"); a.setTag("s", "1"); c.setTag(tags == 2 ? "u" : "s", tags == 1 ? "1" : "2"); bool taken = tags == 0 && vs_bool("name taken"); if (taken) w1.setTag("t_merged", "3");
  for (int i = 0; i < N; ++i) {
    Rec& x = rec[i]; x.stream = (i < 2 ? 0 : 2) + (int)vs_choose(2, "stream"); x.type = i == 0 ? Record::Type::CONFIGURATION : i == 2 && TIER(tags == 0, true) && vs_bool("configuration") ? Record::Type::CONFIGURATION : Record::Type::DATA;
    if (i < 2) x.ts = 1 + i; else if (i == 2) { x.ts = symTime("ts"); vs_assume(x.ts < 2.5); } else { static const double kt[] = {3, 2}; x.ts = kt[vs_choose(2, "time")]; vs_assume(x.ts > rec[2].ts); }
    x.fmt = vs_u32("fmt"); x.size = 1 + (size_t)i; vs_sym_bytes(x.data, x.size, "data"); dev[x.stream]->make(x.ts, x.type, x.fmt, x.data, x.size);
  }
  vs_assert(w1.writeToFile("/f1.vrs") == 0 && w2.writeToFile("/f2.vrs") == 0, "the files are written");
  FilteredFileReader f1("/f1.vrs"), f2("/f2.vrs"); vs_assert(f1.openFile(RecordFilterParams()) == 0 && f2.openFile(RecordFilterParams()) == 0, "the files open");
  bool only = TIER(tags == 2, true) && vs_bool("one stream of the second file"); if (only) f2.filter.streams = {d.getStreamId()};
  CopyOptions o(false); o.mergeStreams = merge; o.compressionPoolSize = 0; o.setCompressionPreset(CompressionPreset::None); o.preallocateIndex = TIER(tags != 2, vs_bool("index first"));
  vector<FilteredFileReader*> more{&f2}; vs_assert(filterMerge(f1, more, "/copy.vrs", o) == 0, "the files are merged");
  // the streams of the result, each from which streams
  vector<vector<int>> ones, twos{{1}}; vector<int> second = only ? vector<int>{3} : vector<int>{2, 3};
  ones.push_back({0}); for (size_t k = 0; k < second.size(); ++k) if (merge && k == 0) ones[0].push_back(second[k]); else ones.push_back({second[k]});
  Read r; readBack(r, "/copy.vrs"); static const char* flavors[] = {"a", "b", "c", "d"};
  vs_assert(r.ids.size() == ones.size() + 1, "streams of the same type are merged in order if asked, others are kept"); size_t at = 0; map<int, StreamId> to;
  for (auto id : r.ids) {
    vector<int> from = id.getTypeId() == RecordableTypeId::UnitTest2 ? vector<int>{1} : ones[at]; if (id.getTypeId() == RecordableTypeId::UnitTest1) ++at;
    for (int s : from) to[s] = id;
    vs_assert(r.r.getFlavor(id) == flavors[from[0]], "a stream keeps its flavor");
    map<string, string> t; for (int s : from) for (auto& kv : dev[s]->getStreamTags().user) if (!t.count(kv.first)) t[kv.first] = kv.second; else if (t[kv.first] != kv.second) t[kv.first + "_merged"] = kv.second;
    vs_assert(r.r.getTags(id).user == t, "the tags of streams are merged, the first value of a name is kept");
  }
  map<string, string> t{{"t", "1"}}; if (taken) t["t_merged"] = "3"; if (tags == 2) t["u"] = "2"; if (tags == 0) t[taken ? "t_merged-1" : "t_merged"] = "2"; 
  if (taken && tags == 0) { t.erase("t_merged-1"); for (auto& kv : r.r.getTags()) if (!t.count(kv.first)) { vs_assert(kv.second == "2" && kv.first.substr(0, 8) == "t_merged", "the other value of a tag is kept under another name"); t.insert(kv); } vs_assert(t.size() == 3, "the other value of a tag is kept under another name"); }
  vs_assert(r.r.getTags() == t, "the tags of the files are merged, the first value of a name is kept");
  // the records, in order of time; of those of the same stream, type and time one is kept
  size_t n = 0; bool used[N] = {}; int want = 0; bool dup = false; 
  for (int i = 0; i < N; ++i) { if (only && rec[i].stream == 2) { used[i] = true; continue; } bool twin = false; for (int j = 0; j < i; ++j) if (!(only && rec[j].stream == 2) && to[rec[i].stream] == to[rec[j].stream] && rec[i].type == rec[j].type && rec[i].ts == rec[j].ts) twin = true; if (twin) dup = true; else ++want; }
  vs_assert(r.p.got.size() == (size_t)want, "each record is copied once, and one of those of the same stream, type and time"); 
  double last = -2e9;
  for (auto& g : r.p.got) {
    vs_assert(g.ts >= last, "the records are in order of time"); last = g.ts; int k = (int)g.size - 1; vs_assert(k >= 0 && k < N && !used[k], "each record is copied once, and one of those of the same stream, type and time"); used[k] = true; sameRecord(g, rec[k], to[rec[k].stream]); ++n;
  }
  vs_reach(dup ? "duplicates" : merge ? "merged" : "kept apart");
}
