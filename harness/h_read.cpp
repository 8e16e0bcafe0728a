// C13: a record read in pieces.
#include "vsvrs.h"
using namespace vrs;
namespace {
#define ORDER "pieces of a record read one after the other are its bytes in order"
struct Pieces : StreamPlayer {
  const uint8_t* want = nullptr; size_t len = 0; size_t s[6]; int n = 0; bool failed = false, tooMuch = false; size_t at = 0; bool skip = false, whole = false, one = false;
  uint8_t buf[3][16]; size_t cap = 4;
  // a few bytes, or any number that is more than what is left
  size_t size() { unsigned k = (unsigned)vs_choose(one ? 3 : cap + 2, "size"); return k <= cap && !(one && k == 2) ? k : (size_t)vs_range(len - at + 1, 0xfffffff0u, "large size"); }
  void plan(const uint8_t* w, size_t l, size_t big) { want = w; len = l; at = 0; n = 0; failed = tooMuch = false; cap = big; skip = false; memset(buf, 0xa5, sizeof buf); }
  // checks a buffer that got `got` of the bytes from `at`, and nothing after them
  void check(const uint8_t* b, size_t got, size_t size) { unsigned d = 0; for (size_t i = 0; i < 16; ++i) d |= (unsigned)(b[i] ^ (i < got ? want[at + i] : 0xa5)); vs_assert(d == 0 && got <= size, ORDER); at += got; }
  bool processRecordHeader(const CurrentRecord& r, DataReference& ref) override {
    vs_assert(r.recordSize == len, "the size of a record is told before it is read");
    if (skip) return false;
    if (whole) { s[0] = len < 16 ? len : 16; s[1] = 0; ref.useRawData(buf[0], (uint32_t)s[0]); return true; }
    s[0] = size(); s[1] = one ? 0 : vs_choose(3, "size"); ref.useRawData(buf[0], (uint32_t)s[0], buf[1], (uint32_t)s[1]); return true;
  }
  void processRecord(const CurrentRecord& r, uint32_t got) override {
    n = 1; vs_assert(got == s[0] + s[1], "the size of what was read is told"); 
    check(buf[0], s[0], s[0]); check(buf[1], s[1], s[1]);
    for (int k = 0; k < 2 && !whole; ++k) {
      memset(buf, 0xa5, sizeof buf); vs_assert(r.reader->getUnreadBytes() == len - at, "what is left to read is told");
      size_t a = size(), b = k || one ? 0 : vs_choose(3, "size"); DataReference ref(buf[0], (uint32_t)a, buf[1], (uint32_t)b); uint32_t done = 77;
      int e = k ? r.reader->read(buf[0], a) : r.reader->read(ref, done);
      if (a + b > len - at) { vs_assert(e != 0, "no more is read than there is"); tooMuch = true; check(buf[0], 0, a); check(buf[1], 0, b); continue; }
      if (e) { failed = true; return; }
      if (!k) vs_assert(done == a + b, "the size of what was read is told");
      check(buf[0], a, a); check(buf[1], b, b);
    }
  }
};
}
VS_ENTRY(h_pieces) {
  Dev a(RecordableTypeId::UnitTest1); RecordFileWriter w; w.addRecordable(&a);
  bool fault = vs_bool("a read fails"); bool packed = vs_bool("compressed"); a.setCompression(!packed ? CompressionPreset::None : vs_choose(2, "codec") ? CompressionPreset::ZstdFast : CompressionPreset::Lz4Fast);
  static uint8_t data[2][300]; size_t len[2]; bool big = packed && vs_choose(2, "long");
  for (int i = 0; i < 2; ++i) { len[i] = i ? packed ? 251 : 5 : big ? 252 : packed ? 251 : fault ? 3 : vs_choose(TIER(5, 7), "record size"); memset(data[i], 7 + i, sizeof data[i]); vs_sym_bytes(data[i], 8, "data"); a.make(i, Record::Type::DATA, 1, data[i], len[i]); }
  vs_assert(w.writeToFile("/f.vrs") == 0, "the file is written");
  RecordFileReader r; vs_assert(r.openFile("/f.vrs") == 0, "the file opens"); Pieces p; r.setStreamPlayer(a.getStreamId(), &p);
  if (fault) vsfs_arm_fault(VF_READ | VF_SEEK, (unsigned)vs_range(0, 5, "nth"), vs_choose(3, "partial bytes"), 0, 0);
  auto& ix = r.getIndex(); vs_assert(ix.size() == 2, "the records are listed");
  for (int i = 0; i < 2; ++i) {
    p.plan(data[i], len[i], TIER(3, 6)); p.whole = i; p.one = fault; p.skip = i == 0 && !fault && vs_choose(2, "skipped");
    int e = r.readRecord(ix[(size_t)i]);
    if (fault && vsfs_fault_fired()) { vs_assert(e != 0 || p.failed || p.n, "a failed read is not hidden"); vsfs_disarm_fault(); fault = false; vs_reach(p.failed ? "piece not read" : "record not read"); continue; }
    vs_assert(e == 0 && !p.failed, "a sound record is read");
    if (p.skip) { vs_reach("skipped"); continue; }
    if (p.n == 0) { vs_assert(p.s[0] + p.s[1] > len[i], "a sound record is read"); vs_reach("asked for more than the record"); continue; }
    vs_reach(p.tooMuch ? "piece refused" : "read in pieces");
  }
}
