// C06: tags come back as they were set.
#include "vsvrs.h"
#include <vrs/RecordFormat.h>
using namespace vrs;
using std::map;
namespace {
struct TDev : Dev { using Dev::Dev; map<string, string>& vrsTags() { return getVRSTags(); } };
string symText(const char* n, size_t max) { char b[8]; size_t k = vs_choose(max + 1, "length"); vs_sym_bytes(b, k, n); return string(b, k); }
void sameMap(const map<string, string>& got, const map<string, string>& want, const char* msg, bool more = false) {
  if (!more) vs_assert(got.size() == want.size(), msg);
  for (auto& kv : want) {
    bool found = false;
    for (auto& g : got) if (g.first.size() == kv.first.size() && g.second.size() == kv.second.size() && !memcmp(g.first.data(), kv.first.data(), kv.first.size())) {
      unsigned d = 0; for (size_t i = 0; i < g.second.size(); ++i) d |= (unsigned char)(g.second[i] ^ kv.second[i]);
      vs_assert(d == 0, msg); found = true; break;
    }
    vs_assert(found, msg);
  }
}
void write(RecordFileWriter& w, TDev& a, TDev& b, int how) {
  uint8_t d[2] = {1, 2};
  auto rec = [&] { a.make(1, Record::Type::DATA, 1, d, 2); b.make(2, Record::Type::DATA, 1, d, 2); };
  w.addRecordable(&a);
  if (how != 1) w.addRecordable(&b);
  if (how == 0) { rec(); vs_assert(w.writeToFile("/f.vrs") == 0, "the file is written"); return; }
  vs_assert(w.createFileAsync("/f.vrs") == 0, "the file is created");
  if (how == 1) w.addRecordable(&b); // joins late
  rec();
  vs_assert(w.waitForFileClosed() == 0, "the file is closed without error");
}
}
// names and values: any bytes
VS_ENTRY(h_tag_text) {
  TDev a(RecordableTypeId::UnitTest1), b(RecordableTypeId::UnitTest2, "team/device/flavor");
  RecordFileWriter w; map<string, string> file, ua, ub;
  int where = (int)vs_choose(3, "tags of");
  map<string, string>& t = where == 0 ? file : where == 1 ? ua : ub;
  for (int i = 0; i < 2; ++i) { string n = symText("name", TIER(1, 2)); t[n] = symText("value", 2); }
  if (where == 0) { for (auto& kv : t) w.setTag(kv.first, kv.second); } else (where == 1 ? a : b).addTags(t);
  write(w, a, b, (int)vs_choose(2, "join"));
  RecordFileReader rd; vs_assert(rd.openFile("/f.vrs") == 0, "the file opens");
  sameMap(rd.getTags(), file, "file tags are read back as they were set");
  sameMap(rd.getTags(a.getStreamId()).user, ua, "stream tags are read back as they were set");
  sameMap(rd.getTags(b.getStreamId()).user, ub, "stream tags are read back as they were set");
  for (auto& kv : t) vs_assert((where == 0 ? rd.getTag(kv.first) : rd.getTag(where == 1 ? a.getStreamId() : b.getStreamId(), kv.first)).size() == kv.second.size(), "a tag is found by its name");
  vs_reach("tags read");
}
// numbers of tags and lengths of texts, streams joining late, streams without tags
VS_ENTRY(h_tag_shape) {
  TDev a(RecordableTypeId::UnitTest1), b(RecordableTypeId::UnitTest2, "team/device/flavor");
  RecordFileWriter w; map<string, string> file, ua, ub;
  auto fill = [&](map<string, string>& t, const char* n) { size_t k = vs_choose(3, n); for (size_t i = 0; i < k; ++i) { char c = (char)vs_range('a', 'z', "letter"); t["tag" + string(1, (char)('0' + i))] = string(vs_choose(2, "long") ? 300 : 1, c); } };
  fill(file, "file tags"); fill(ua, "tags of first"); fill(ub, "tags of second");
  w.addTags(file); a.addTags(ua); b.addTags(ub);
  a.addRecordFormat(Record::Type::DATA, 3, RecordFormat("image/raw")); b.addRecordFormat(Record::Type::DATA, 1, RecordFormat("data_layout+image/png"));
  b.addRecordFormat(Record::Type::CONFIGURATION, 70000, RecordFormat("custom/size=7"));
  int how = (int)vs_choose(3, "join");
  write(w, a, b, how);
  RecordFileReader rd; vs_assert(rd.openFile("/f.vrs") == 0, "the file opens");
  vs_assert(rd.getStreams().size() == 2 && rd.getRecordCount() == 2, "a file has the streams and records written");
  sameMap(rd.getTags(), file, "file tags are read back as they were set");
  sameMap(rd.getTags(a.getStreamId()).user, ua, "stream tags are read back as they were set");
  sameMap(rd.getTags(b.getStreamId()).user, ub, "stream tags are read back as they were set");
  sameMap(rd.getTags(a.getStreamId()).vrs, a.vrsTags(), "format descriptions of a stream are read back as they were set");
  sameMap(rd.getTags(b.getStreamId()).vrs, b.vrsTags(), "format descriptions of a stream are read back as they were set", how == 1);
  vs_assert(rd.getFlavor(b.getStreamId()) == "team/device/flavor" && rd.getFlavor(a.getStreamId()).empty(), "the flavor of a stream is read back");
  vs_assert(rd.getOriginalRecordableTypeName(a.getStreamId()) == toString(RecordableTypeId::UnitTest1), "the original name of a stream is read back");
  RecordFormat f; vs_assert(rd.getRecordFormat(b.getStreamId(), Record::Type::CONFIGURATION, 70000, f) && f.asString() == "custom/size=7", "the record format of a stream is read back");
  vs_assert(rd.getRecordFormat(a.getStreamId(), Record::Type::DATA, 3, f) && f.asString() == "image/raw", "the record format of a stream is read back");
  vs_assert(!rd.getRecordFormat(a.getStreamId(), Record::Type::DATA, 1, f), "no record format is found where none was set");
  RecordFormatMap m; vs_assert(rd.getRecordFormats(b.getStreamId(), m) == (how == 1 ? m.size() : 2) && m.count({Record::Type::DATA, 1}) && m.count({Record::Type::CONFIGURATION, 70000}), "all record formats of a stream are listed");
  string asked = ub.count("tag0") ? ub["tag0"] : "x";
  vs_assert(rd.getStreamForTag("tag0", asked) == (ua.count("tag0") && ua["tag0"] == asked ? a.getStreamId() : ub.count("tag0") ? b.getStreamId() : StreamId()), "a stream is found by its tag");
  vs_reach("read");
}
// original names: an instance number at the end is dropped, nothing else
VS_ENTRY(h_tag_name) {
  TDev a(RecordableTypeId::UnitTest1), b(RecordableTypeId::UnitTest2);
  char n[8]; size_t k = vs_choose(TIER(7, 8), "length"); vs_sym_bytes(n, k, "name");
  string name(n, k); a.vrsTags()[Recordable::getOriginalNameTagName()] = name;
  RecordFileWriter w; write(w, a, b, 0);
  RecordFileReader rd; vs_assert(rd.openFile("/f.vrs") == 0, "the file opens");
  const string& got = rd.getOriginalRecordableTypeName(a.getStreamId());
  if (got.size() != k) {
    vs_assert(got.size() < k && got.size() + 2 <= k && n[got.size()] == ' ' && n[got.size() + 1] == '#', "only an instance number is dropped from the original name of a stream");
    for (size_t i = got.size() + 2; i < k; ++i) vs_assert(n[i] >= '0' && n[i] <= '9', "only an instance number is dropped from the original name of a stream");
    vs_reach("instance number dropped");
  } else if (k >= 4) vs_assert(!(n[k - 3] == ' ' && n[k - 2] == '#' && n[k - 1] >= '0' && n[k - 1] <= '9'), "an instance number is dropped from the original name of a stream");
  unsigned d = 0; for (size_t i = 0; i < got.size(); ++i) d |= (unsigned char)(got[i] ^ n[i]);
  vs_assert(d == 0, "the original name of a stream is read back");
  vs_reach("name");
}
