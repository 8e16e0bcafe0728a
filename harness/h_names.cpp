// C19: names of streams, and finding streams by what they are called.
#include "vsvrs.h"
#include <string_view>
using namespace vrs;
namespace {
// the two numbers of a name, if it is one: digits, a separator, digits, each a number of 16 bits
bool names(const uint8_t* s, size_t n, uint8_t sep, uint32_t& a, uint32_t& b) {
  size_t i = 0; uint32_t* v[2] = {&a, &b};
  for (int k = 0; k < 2; ++k) {
    size_t start = i; uint64_t x = 0;
    while (i < n && s[i] >= '0' && s[i] <= '9') { x = x * 10 + (uint64_t)(s[i] - '0'); ++i; }
    if (i == start || x > 65535) return false;
    *v[k] = (uint32_t)x;
    if (k == 0) { if (i >= n || s[i] != sep) return false; ++i; }
  }
  return i == n;
}
}
// a stream's name gives it back
VS_ENTRY(h_name_roundtrip) {
  StreamId id((RecordableTypeId)vs_u16("type"), vs_u16("instance"));
  string n = id.getNumericName(); StreamId back = StreamId::fromNumericName(n);
  vs_assert(back.getTypeId() == id.getTypeId() && back.getInstanceId() == id.getInstanceId(), "a stream is told from its name");
  vs_assert(!StreamId::fromNumericNamePlus(n).isValid(), "the name of a stream is not a relative name");
  size_t dash = n.find('-'); vs_assert(dash != string::npos, "the name of a stream has a dash"); n[dash] = '+';
  StreamId rel = StreamId::fromNumericNamePlus(n); vs_assert(rel.getTypeId() == id.getTypeId() && rel.getInstanceId() == id.getInstanceId() && !StreamId::fromNumericName(n).isValid(), "a relative name has the type and number it says");
  vs_reach("names");
}
// no other text is taken for a name
VS_ENTRY(h_name_parse) {
  static const char* kStart[] = {"", "6553", "1201-", "1201-6553", "429496"}; const char* start = kStart[vs_choose(5, "start")];
  size_t k = strlen(start), n = k + vs_choose(TIER(6, 9), "more"); uint8_t* t = (uint8_t*)malloc(n ? n : 1); // no more than the text can be read
  for (size_t i = 0; i < k; ++i) t[i] = (uint8_t)start[i]; vs_sym_bytes(t + k, n - k, "text");
  if (n == 0) { free(t); t = nullptr; }
  bool plus = vs_choose(2, "relative"); if (plus && k > 4) t[4] = '+' ; if (k == 6) t[4] = '9';
  uint32_t a = 0, b = 0; bool is = names(t, n, plus ? '+' : '-', a, b) ;
  StreamId id = plus ? StreamId::fromNumericNamePlus(std::string_view((const char*)t, n)) : StreamId::fromNumericName(std::string_view((const char*)t, n));
  bool valid = is && a != (uint32_t)RecordableTypeId::Undefined;
  vs_assert(id.isValid() == valid, "a name is two numbers of 16 bits with a separator, and nothing else");
  if (valid) vs_assert((uint32_t)id.getTypeId() == a && id.getInstanceId() == b, "a name has the numbers it says");
  free(t); vs_reach(valid ? "a name" : "not a name");
}
// finding streams in a file
VS_ENTRY(h_name_find) {
  constexpr int N = TIER(3, 4); static const char* kf[] = {"", "f", "g"}; std::vector<std::unique_ptr<Dev>> devs; RecordFileWriter w; string flavor[N], tag[N];
  TemporaryRecordableInstanceIdsResetter reset; Dev unused(RecordableTypeId::UnitTest1); // instance ids start at 2, relative ones at 1
  for (int i = 0; i < N; ++i) {
    flavor[i] = kf[vs_choose(TIER(2, 3), "flavor")]; devs.push_back(std::make_unique<Dev>(vs_choose(2, "type") ? RecordableTypeId::UnitTest2 : RecordableTypeId::UnitTest1, flavor[i]));
    uint8_t c = vs_u8("tag"); tag[i] = string(1, (char)c); vs_assume(c != 0); devs[i]->setTag("t", tag[i]); w.addRecordable(devs[i].get()); devs[i]->make(i, Record::Type::DATA, 1, &c, 1);
  }
  vs_assert(w.writeToFile("/f.vrs") == 0, "the file is written"); RecordFileReader r; vs_assert(r.openFile("/f.vrs") == 0, "the file opens");
  struct S { StreamId id; int dev; }; std::vector<S> s; // in the order of their ids
  for (int i = 0; i < N; ++i) { S x{devs[i]->getStreamId(), i}; size_t k = s.size(); while (k > 0 && x.id < s[k - 1].id) --k; s.insert(s.begin() + (long)k, x); }
  { size_t k = 0; for (auto id : r.getStreams()) { vs_assert(k < s.size() && id == s[k].id, "the streams of a file are in order of type and instance"); ++k; } vs_assert(k == s.size(), "every stream is listed"); }
  RecordableTypeId type = vs_choose(2, "asked type") ? RecordableTypeId::UnitTest2 : RecordableTypeId::UnitTest1; unsigned fi = (unsigned)vs_choose(TIER(3, 4), "asked flavor"); string fl = fi < TIER(2, 3) ? kf[fi] : "h";
  uint32_t nth = vs_u32("asked number"); uint8_t c = vs_u8("asked tag"); string ct(1, (char)c); vs_assume(c != 0);
  StreamId byType, byFlavor, byTag, byTagType; uint32_t t = 0, f = 0; std::vector<StreamId> listed, anyType;
  for (auto& x : s) {
    bool isType = x.id.getTypeId() == type, isFlavor = flavor[x.dev] == fl, isTag = tag[x.dev] == ct;
    if (isType && t++ == nth) byType = x.id;
    if (isType && isFlavor && f++ == nth) byFlavor = x.id;
    if (isTag && !byTag.isValid()) byTag = x.id;
    if (isTag && isType && !byTagType.isValid()) byTagType = x.id;
    if (isType && (fl.empty() || isFlavor)) listed.push_back(x.id);
    if (fl.empty() || isFlavor) anyType.push_back(x.id);
  }
  vs_assert(r.getStreamForType(type, nth) == byType, "the nth stream of a type is the nth in order");
  vs_assert(r.getStreamForFlavor(type, fl, nth) == byFlavor, "the nth stream of a type and flavor is the nth in order");
  vs_assert(r.getStreamForTag("t", ct) == byTag && r.getStreamForTag("t", ct, type) == byTagType, "the stream with a tag is the first that has it");
  vs_assert(r.getStreams(type, fl) == listed && r.getStreams(RecordableTypeId::Undefined, fl) == anyType, "the streams of a type and flavor are all those that have them");
  char num[2] = {(char)vs_range('0', '9', "digit"), 0}; string base = std::to_string((int)type); uint16_t d = (uint16_t)(num[0] - '0');
  StreamId exact(type, d), found, rel; t = 0; for (auto& x : s) { if (x.id == exact) found = x.id; if (x.id.getTypeId() == type && ++t == d) rel = x.id; }
  StreamId got = r.getStreamForName(base + "-" + num), gotRel = r.getStreamForName(base + "+" + num);
  vs_assert(got.isValid() == found.isValid() && (!found.isValid() || got == found), "a stream is found by its name if it is in the file");
  vs_assert(gotRel.isValid() == rel.isValid() && (!rel.isValid() || gotRel == rel), "a relative name is the nth stream of its type");
  for (auto& x : s) vs_assert(r.getFlavor(x.id) == flavor[x.dev] && r.getTag(x.id, "t") == tag[x.dev] && r.getStreamForSerialNumber(devs[x.dev]->getSerialNumber()) == x.id && !devs[x.dev]->getSerialNumber().empty(), "a stream is found by its serial number");
  vs_reach("found");
}
