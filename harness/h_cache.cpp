// C26: file details kept in a cache tell what the file would.
#include "vsvrs.h"
#include <set>
#include <vrs/DiskFile.h>
#include <vrs/FileCache.h>
#include <vrs/FileDetailsCache.h>
#include <vrs/FileHandlerFactory.h>
using namespace vrs;
using std::map;
using std::set;
namespace {
using Index = vector<IndexRecord::RecordInfo>;
struct Details { set<StreamId> ids; map<string, string> fileTags; map<StreamId, StreamTags> tags; Index index; bool hasIndex = true; };
int write(const Details& d) { return FileDetailsCache::write("/c/f", d.ids, d.fileTags, d.tags, d.index, d.hasIndex); }
int read(Details& d) { return FileDetailsCache::read("/c/f", d.ids, d.fileTags, d.tags, d.index, d.hasIndex); }
bool eq(const string& a, const string& b) { if (a.size() != b.size()) return false; unsigned d = 0; for (size_t i = 0; i < a.size(); ++i) d |= (unsigned char)(a[i] ^ b[i]); return d == 0; }
void sameTags(const map<string, string>& a, const map<string, string>& b, const char* msg) {
  vs_assert(a.size() == b.size(), msg);
  auto j = b.begin(); for (auto i = a.begin(); i != a.end(); ++i, ++j) vs_assert(eq(i->first, j->first) & eq(i->second, j->second), msg);
}
void same(const Details& got, const Details& want) {
  vs_assert(got.ids.size() == want.ids.size(), "the streams come back from the cache");
  auto j = want.ids.begin(); for (auto i = got.ids.begin(); i != got.ids.end(); ++i, ++j) vs_assert(*i == *j, "the streams come back from the cache");
  sameTags(got.fileTags, want.fileTags, "the tags come back from the cache");
  vs_assert(got.tags.size() == want.tags.size(), "the tags come back from the cache");
  auto l = want.tags.begin(); for (auto k = got.tags.begin(); k != got.tags.end(); ++k, ++l) {
    vs_assert(k->first == l->first, "the tags come back from the cache");
    sameTags(k->second.user, l->second.user, "the tags come back from the cache"); sameTags(k->second.vrs, l->second.vrs, "the tags come back from the cache");
  }
  vs_assert(got.index.size() == want.index.size(), "the index comes back from the cache");
  for (size_t i = 0; i < want.index.size(); ++i) {
    auto &g = got.index[i], &w = want.index[i];
    vs_assert(bitsOf(g.timestamp) == bitsOf(w.timestamp), "the index comes back from the cache");
    vs_assert((g.fileOffset == w.fileOffset) & (g.recordType == w.recordType), "the index comes back from the cache");
    vs_assert((g.streamId.getTypeId() == w.streamId.getTypeId()) & (g.streamId.getInstanceId() == w.streamId.getInstanceId()), "the index comes back from the cache");
  }
  vs_assert(got.hasIndex == want.hasIndex, "whether the file has an index comes back from the cache");
}
string symText(size_t n, const char* name) { string s(n, 0); for (auto& c : s) c = (char)vs_u8(name); return s; }
Details some(size_t records) {
  Details d; StreamId a(RecordableTypeId::UnitTest1, 1);
  StreamId b((RecordableTypeId)vs_u16("type"), vs_u16("instance")); vs_assume(a < b);
  d.ids.insert(a); d.ids.insert(b); d.hasIndex = vs_bool("has index");
  if (vs_bool("file tag")) d.fileTags["f"] = symText(2, "tag");
  if (unsigned k = (unsigned)vs_choose(4, "stream tags")) { if (k != 2) d.tags[a].user["u"] = symText(1, "tag"); if (k != 1) d.tags[a].vrs["v"] = symText(3, "tag"); if (k == 3) d.tags[b].vrs["VRS_Original_Recordable_Name"] = "x"; else d.tags[b].user["w"] = "x"; } // user tags alone, VRS tags alone, or both
  for (size_t i = 0; i < records; ++i) d.index.emplace_back(vs_f64("ts"), (int64_t)vs_u64("offset"), StreamId((RecordableTypeId)vs_u16("type"), vs_u16("instance")), (Record::Type)vs_range(1, 4, "record type"));
  return d;
}
// serial numbers are made up when there are none: not part of what was given
void plain(Details& d) { for (auto& t : d.tags) { for (auto i = t.second.vrs.begin(); i != t.second.vrs.end();) { if (i->first == "VRS_Serial_Number") i = t.second.vrs.erase(i); else ++i; } } }
}
VS_ENTRY(h_cache_details) {
  Details d = some(vs_choose(TIER(3, 4), "records"));
  vs_assert(write(d) == 0, "the cache is written");
  Details g; g.hasIndex = !d.hasIndex; int e = read(g);
  vs_assert(e == 0, "the cache that was written is read");
  plain(g); same(g, d); vs_reach("read");
}
// whichever operation fails or wherever the process stops, what is found under the name is the old or the new cache
VS_ENTRY(h_cache_fault) {
  Details o; StreamId a(RecordableTypeId::UnitTest1, 1); o.ids.insert(a); o.index.emplace_back(1.0, 100, a, Record::Type::DATA); o.fileTags["x"] = "y";
  bool had = vs_bool("cache exists"); if (had) vs_assert(write(o) == 0, "the cache is written");
  Details d = o; d.index.emplace_back(vs_f64("ts"), (int64_t)vs_u64("offset"), a, Record::Type::DATA); d.fileTags["t"] = symText(1, "tag");
  bool crash = vs_bool("crash"); unsigned k = (unsigned)vs_range(0, 31, "nth"); size_t part = vs_range(0, 3, "partial bytes");
  if (crash) vsfs_arm_crash(k, part); else vsfs_arm_fault(VF_WRITE | VF_FLUSH | VF_CLOSE | VF_OPEN | VF_SEEK | VF_TELL, k, part, (int)vs_choose(2, "persistent"), (int)vs_choose(2, "deferred"));
  int e = write(d);
  if (crash) { if (!vsfs_crashed()) vs_silent_end(); vsfs_restore_crash(); } else vsfs_disarm_fault();
  if (!crash && !vsfs_fault_fired()) vs_assert(e == 0, "the cache is written");
  if (!vsfs_exists("/c/f")) { vs_assert(crash ? true : !had && e != 0, "a cache is not lost"); vs_reach("none"); return; }
  Details g; vs_assert(read(g) == 0, "what is found under the name of a cache is a whole one"); plain(g);
  bool isNew = g.index.size() == 2;
  if (!crash && e == 0) vs_assert(isNew, "a cache reported written is there");
  same(g, isNew ? d : o); vs_reach(isNew ? "new" : "old");
}
// Any value in a field of the cache file: read safely
VS_ENTRY(h_cache_hostile) {
  Details d; StreamId a(RecordableTypeId::UnitTest1, 1); d.ids.insert(a); d.fileTags["x"] = "y";
  for (int i = 0; i < 3; ++i) d.index.emplace_back(1.0 + i, 100 * i, a, Record::Type::DATA);
  vs_assert(write(d) == 0, "the cache is written");
  auto* h = (FileFormat::FileHeader*)vsfs_data("/c/f");
  int64_t at = h->indexRecordOffset, desc = h->descriptionRecordOffset;
  switch (vs_choose(TIER(9, 10), "damaged field")) {
    case 0: vs_sym(&h->fileHeaderSize, 4, "fileHeaderSize"); vs_sym(&h->recordHeaderSize, 4, "recordHeaderSize"); break;
    case 1: vs_sym(&h->indexRecordOffset, 8, "indexRecordOffset"); break;
    case 2: vs_sym(&h->descriptionRecordOffset, 8, "descriptionRecordOffset"); break;
    case 3: vs_sym(&h->firstUserRecordOffset, 8, "firstUserRecordOffset"); break;
    case 4: vs_sym((uint8_t*)h + at, 4, "streams"); break;
    case 5: vs_sym((uint8_t*)h + at + 8, 4, "records"); break;
    case 6: { auto* r = (FileFormat::RecordHeader*)((uint8_t*)h + desc); vs_sym(&r->recordSize, 4, "recordSize"); vs_sym(&r->formatVersion, 4, "version"); break; }
    case 7: { uint32_t k = (uint32_t)(vs_bool("large") ? vs_range(50001, 0xfffffffeu / 21, "frame content size") * 21 : vs_range(0, 90, "frame content size")); memcpy((uint8_t*)h + at + 12 + 4, &k, 4); vs_sym((uint8_t*)h + at + 8, 4, "records"); break; }
    case 8: vsfs_truncate("/c/f", vs_choose((size_t)vsfs_size("/c/f"), "size")); break;
    case 9: vs_sym((uint8_t*)h + at, 4, "streams"); vs_sym((uint8_t*)h + at + 8, 4, "records"); vs_sym(&h->recordHeaderSize, 4, "recordHeaderSize"); break;
  }
  vs_alloc_limit(8u << 20);
  Details g; int e = read(g); vs_reach(e ? "refused" : "read");
}
namespace {
struct Remote : DiskFile {
  std::unique_ptr<FileHandler> makeNew() const override { return std::make_unique<Remote>(); }
  const string& getFileHandlerName() const override { static string n = "remote"; return n; }
  int openSpec(const FileSpec& f) override { FileSpec d = f; d.fileHandlerName.clear(); return DiskFile::openSpec(d); }
  bool isRemoteFileSystem() const override { return true; }
};
Details seen(RecordFileReader& r) { Details d; d.ids = r.getStreams(); d.fileTags = r.getTags(); for (auto id : d.ids) d.tags[id] = r.getTags(id); d.index = r.getIndex(); d.hasIndex = r.hasIndex(); plain(d); return d; }
void listCached(string& det) { /* name of the details file */ auto* h = (FileFormat::FileHeader*)vsfs_data("/f.vrs"); det = "/h/.app/vrs_details_" + std::to_string(h->creationId) + "_" + std::to_string(vsfs_size("/f.vrs")); }
}
// a remote file opened with the cache, and opened again, shows what it shows without a cache
VS_ENTRY(h_cache_reader) {
  {
    Dev a(RecordableTypeId::UnitTest1), b(RecordableTypeId::UnitTest2); RecordFileWriter w; w.addRecordable(&a); w.addRecordable(&b);
    w.setTag("t", "v"); a.setTag("s", "w"); uint8_t data[4] = {1, 2, 3, 4};
    double t0 = symTime("ts"), t1 = symTime("ts");
    a.make(t0, Record::Type::CONFIGURATION, 1, data, 2); b.make(t1, Record::Type::DATA, 1, data, 4);
    if (vs_bool("index at the end")) { w.createFileAsync("/f.vrs"); w.waitForFileClosed(); } else w.writeToFile("/f.vrs");
  }
  bool cut = vs_bool("cut short"); if (cut) vsfs_truncate("/f.vrs", (size_t)vsfs_size("/f.vrs") - 1);
  RecordFileReader plainReader; int e0 = plainReader.openFile("/f.vrs"); Details want = seen(plainReader);
  vsfs_mkdir("/h"); FileCache::makeFileCache("app", "/h");
  FileHandlerFactory::getInstance().registerFileHandler(std::make_unique<Remote>());
  FileSpec s; s.fileHandlerName = "remote"; s.chunks = {"/f.vrs"};
  int how = (int)vs_choose(6, "what happens in between"); string det; listCached(det);
  if (how == 1) { FileSpec f = s; f.setExtra(kFailFastOnIncompleteIndex, true); RecordFileReader r; int e = r.openFile(f); if (!cut) { vs_assert(e == e0, "a remote file opens"); same(seen(r), want); } r.closeFile(); }
  else if (how == 4) { RecordFileReader r; vs_assert(r.openFile(s, true) == e0, "a remote file opens and is repaired"); r.closeFile(); want.hasIndex = true; }
  else if (how == 5) { FileSpec f = s; f.setExtra("sort_records", true); vs_race_check(1); RecordFileReader r; vs_assert(r.openFile(f) == e0, "a remote file opens"); r.closeFile(); vs_race_check(0); }
  else if (how == 2) { unsigned k = (unsigned)vs_range(0, TIER(15, 31), "nth"); vsfs_arm_fault(VF_READ, k, vs_choose(2, "partial bytes") * 5, 0, 0); RecordFileReader r; r.openFile(s); r.closeFile(); if (!vsfs_fault_fired()) vs_silent_end(); vsfs_disarm_fault(); }
  else { RecordFileReader r; vs_assert(r.openFile(s) == e0, "a remote file opens"); same(seen(r), want); r.closeFile();
    vs_assert(vsfs_exists(det.c_str()), "the details of a remote file are kept");
    if (how == 3) { size_t n = (size_t)vsfs_size(det.c_str()); size_t k = vs_range(0, n - 1, "size left"); vsfs_truncate(det.c_str(), vs_concretize(k)); } }
  RecordFileReader r; vs_assert(r.openFile(s) == e0, "a remote file opens again");
  Details again = seen(r); same(again, want);
  KeepPlayer p; for (auto id : r.getStreams()) r.setStreamPlayer(id, &p);
  if (e0 == 0) { vs_assert(r.readAllRecords() == 0, "its records are read"); vs_assert(p.got.size() == want.index.size(), "all records are read"); }
  vs_reach(how == 0 ? "from the cache" : how == 1 ? "after a failed open" : how == 2 ? "after a read error" : how == 3 ? "damaged cache" : how == 4 ? "repaired" : "sorted");
}
