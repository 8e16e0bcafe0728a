// C05: opening and reading any file is safe.
#include <deque>
#include "vsvrs.h"
#include <vrs/DescriptionRecord.h>
using namespace vrs;
namespace {
struct Chunked : RecordFileWriter { void chunkSize(uint64_t n) { maxChunkSize_ = n; } };
constexpr size_t kMaxAlloc = 8u << 20;
struct Probe : StreamPlayer {
  uint8_t buf[64]; int n = 0;
  bool processRecordHeader(const CurrentRecord& r, DataReference& ref) override { ref.useRawData(buf, r.recordSize < sizeof buf ? r.recordSize : (uint32_t)sizeof buf); return true; }
  void processRecord(const CurrentRecord&, uint32_t) override { ++n; }
};
void probe(const char* path, bool repair = false) {
  vs_alloc_limit(kMaxAlloc);
  RecordFileReader rd;
  int e = rd.openFile(path, repair);
  if (e != 0) { vs_reach("maybe:refused"); return; }
  Probe p;
  for (auto id : rd.getStreams()) { rd.setStreamPlayer(id, &p); rd.getTags(id); (void)rd.getLastRecord(id, Record::Type::DATA); }
  rd.readAllRecords();
  rd.getFileChunks(); rd.getTotalSourceSize();
  vs_reach("opened");
}
// 2 streams, 3 records; layout 0: index at the end, 1: in front, 2: split head and chunks
vector<uint8_t> blank(size_t n) { return vector<uint8_t>(n, 0); }
void make(int layout) {
  Dev a(RecordableTypeId::UnitTest1), b(RecordableTypeId::UnitTest2);
  Chunked w; w.addRecordable(&a); w.addRecordable(&b);
  w.setTag("t", "v");
  static const uint8_t data[8] = {1, 2, 3, 4, 5, 6, 7, 8};
  if (layout == 1) {
    auto guess = std::make_unique<std::deque<IndexRecord::DiskRecordInfo>>();
    for (int i = 0; i < 3; ++i) guess->push_back(IndexRecord::DiskRecordInfo((double)i, 1, a.getStreamId(), Record::Type::DATA));
    w.preallocateIndex(std::move(guess));
  }
  if (layout == 2) { w.createChunkedFile("/f.vrs"); w.chunkSize(40); } else w.createFileAsync("/f.vrs");
  for (int i = 0; i < 3; ++i) (i == 1 ? b : a).make(i, i ? Record::Type::DATA : Record::Type::CONFIGURATION, 1, data, (size_t)i * 4);
  w.waitForFileClosed();
}
FileFormat::FileHeader* header() { return (FileFormat::FileHeader*)vsfs_data("/f.vrs"); }
FileFormat::RecordHeader* recordAt(int64_t off) { return (FileFormat::RecordHeader*)(vsfs_data("/f.vrs") + off); }
}
// Any one or two fields of the file header in front of valid records
VS_ENTRY(h_any_file_header) {
  int layout = (int)vs_choose(3, "layout"); make(layout);
  auto* h = header();
  int f1 = (int)vs_choose(6, "damaged field"), f2 = TIER(f1, (int)vs_choose(6, "other damaged field"));
  for (int k = 0; k < 2; ++k) switch (k ? f2 : f1) {
    case 0: vs_sym(&h->fileHeaderSize, 4, "fileHeaderSize"); break;
    case 1: vs_sym(&h->recordHeaderSize, 4, "recordHeaderSize"); break;
    case 2: vs_sym(&h->indexRecordOffset, 8, "indexRecordOffset"); break;
    case 3: vs_sym(&h->descriptionRecordOffset, 8, "descriptionRecordOffset"); break;
    case 4: vs_sym(&h->firstUserRecordOffset, 8, "firstUserRecordOffset"); break;
    case 5: vs_sym(&h->magicHeader1, 4, "magic1"); vs_sym(&h->magicHeader2, 4, "magic2"); vs_sym(&h->magicHeader3, 4, "magic3"); vs_sym(&h->fileFormatVersion, 4, "version"); break;
  }
  probe("/f.vrs");
}
// A record header with any content: the description, the index, or a user record; index used, rebuilt, or repaired
VS_ENTRY(h_any_record_header) {
  int layout = (int)vs_choose(3, "layout"); make(layout);
  auto* h = header();
  int64_t index = h->indexRecordOffset, desc = h->descriptionRecordOffset, first = desc + recordAt(desc)->recordSize;
  int which = (int)vs_choose(3, "record");
  bool lost = vs_bool("index lost");
  FileFormat::RecordHeader* r = which == 0 ? recordAt(desc) : which == 1 ? recordAt(index) : nullptr;
  if (which == 2) { if (layout == 2) r = (FileFormat::RecordHeader*)vsfs_data("/f.vrs_1"); else r = recordAt(layout == 0 ? first : h->firstUserRecordOffset); }
  int part = (int)vs_choose(4, "part");
  if (part == 0 || TIER(false, part == 1)) vs_sym(&r->recordSize, 4, "recordSize");
  if (TIER(part == 1, part == 0)) vs_sym(&r->previousRecordSize, 4, "previousRecordSize");
  if (part == 1) { vs_sym(&r->uncompressedSize, 4, "uncompressedSize"); vs_sym(&r->compressionType, 1, "compressionType"); vs_assume(r->uncompressedSize <= 80 || r->uncompressedSize >= kMaxAlloc * 2); }
  if (part == 2) { if (TIER(true, false)) { static const int32_t ids[] = {0, 1, 2, 65532, 65533, 65535, 0x10000, -1, 7}; r->recordableTypeId = ids[vs_choose(9, "type")]; } else vs_sym(&r->recordableTypeId, 4, "type"); if (TIER(lost, true)) vs_sym(&r->recordableInstanceId, 2, "instance"); vs_sym(&r->recordType, 1, "recordType"); }
  if (part == 3) { vs_sym(&r->formatVersion, 4, "formatVersion"); vs_sym(&r->timestamp, 8, "timestamp"); }
  if (lost) h->indexRecordOffset = 0;
  probe("/f.vrs", lost && vs_bool("repair"));
}
// A description record with any payload
VS_ENTRY(h_any_description) {
  make((int)vs_choose(2, "layout") * 2);
  auto* h = header(); auto* d = recordAt(h->descriptionRecordOffset);
  uint8_t* p = (uint8_t*)(d + 1);
  // stream count, then per stream: id (6), tag count, and each name and value with its size in front
  int part = (int)vs_choose(6, "part");
  if (part >= 4) { // the older format: JSON text
    d->formatVersion = 1;
    static const char text[] = "{\"name\":\"n\",\"tags\":{\"a\":\"b\"}}"; uint32_t n = sizeof text - 1;
    memset(p, 0, 16); p[0] = 1; p[4] = 1; memcpy(p + 10, &n, 4); memcpy(p + 14, text, n); memcpy(p + 14 + n, &n, 4); memcpy(p + 18 + n, text, n);
    if (part == 4) vs_sym(p, 4, "stream count");
    else { vs_sym(p + 10, 4, "size"); vs_assume(*(uint32_t*)(p + 10) == n || *(uint32_t*)(p + 10) > 300); }
  }
  if (part == 0) vs_sym(p, 4, "stream count");
  if (part == 1) vs_sym(p + 10, 4, "tag count");
  if (part == 2) vs_sym(p + 14, 4, "name size");
  if (part == 3) vs_sym_bytes(p + 4, 6, "stream id");
  if (TIER(part == 1 && vs_bool("damaged size"), vs_bool("damaged size"))) vs_sym(&d->recordSize, 4, "recordSize");
  probe("/f.vrs");
}
// An index record with any payload
VS_ENTRY(h_any_index) {
  int layout = (int)vs_choose(3, "layout"); make(layout);
  auto* h = header(); auto* d = recordAt(h->indexRecordOffset);
  uint8_t* p = (uint8_t*)(d + 1);
  d->compressionType = 0; // the payload as such
  if (layout < 2) {
    // stream count, stream ids (6 bytes each), record count, records
    switch (vs_choose(3, "part")) {
      case 0: vs_sym(p, 4, "stream count"); vs_sym(p + 4, 4, "id"); break;
      case 1: vs_sym(p + 16, 4, "record count"); break;
      case 2: vs_sym(p + 20, 8, "timestamp"); vs_sym(p + 28, 4, "record size"); vs_sym_bytes(p + 32, 7, "stream and type"); break;
    }
    vs_sym(&d->recordSize, 4, "recordSize"); vs_sym(&d->uncompressedSize, 4, "uncompressedSize");
  } else {
    switch (vs_choose(2, "part")) {
      case 0: vs_sym(p, 8, "timestamp"); vs_sym(p + 8, 4, "record size"); vs_sym_bytes(p + 12, 7, "stream and type"); break;
      case 1: vs_sym(&h->firstUserRecordOffset, 8, "firstUserRecordOffset"); break;
    }
    vs_sym(&d->recordSize, 4, "recordSize"); vs_sym(&d->uncompressedSize, 4, "uncompressedSize");
  }
  probe("/f.vrs");
}
