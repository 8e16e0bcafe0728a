// C16: formats survive their text form. C17: the blocks of a record are found. C18: image geometry.
#include "vsvrs.h"
#include <vrs/DataLayout.h>
#include <vrs/DataLayoutConventions.h>
#include <vrs/DataPieces.h>
#include <vrs/RecordFormat.h>
using namespace vrs;
using std::map;
namespace {
// numbers of 1 to 3 digits and the largest ones; the digits are symbolic
uint32_t number(const char* n) {
  switch (vs_choose(TIER(4, 6), n)) {
    case 0: return (uint32_t)vs_range(0, 9, n);
    case 1: return (uint32_t)vs_range(10, 99, n);
    case 2: return 4294967295u - (uint32_t)vs_range(0, 7, n);
    case 3: return 65536;
    case 4: return (uint32_t)vs_range(100, 999, n);
    default: return 2147483648u;
  }
}
bool eq(const string& a, const string& b) { if (a.size() != b.size()) return false; unsigned d = 0; for (size_t i = 0; i < a.size(); ++i) d |= (unsigned char)(a[i] ^ b[i]); return d == 0; }
#define KEPT "a content block is rebuilt from its text as it was"
void sameImage(const ImageContentBlockSpec& a, const ImageContentBlockSpec& b) {
  vs_assert(a.getImageFormat() == b.getImageFormat() && a.getPixelFormat() == b.getPixelFormat() && a.getWidth() == b.getWidth() && a.getHeight() == b.getHeight() &&
            a.getRawStride() == b.getRawStride() && a.getRawStride2() == b.getRawStride2() && eq(a.getCodecName(), b.getCodecName()) && a.getCodecQuality() == b.getCodecQuality() && a == b && !(a != b), KEPT);
}
void sameBlock(const ContentBlock& a, const ContentBlock& b) {
  vs_assert(a.getContentType() == b.getContentType() && a.getBlockSize() == b.getBlockSize() && eq(a.getCustomContentBlockFormat(), b.getCustomContentBlockFormat()) && a == b, KEPT);
  if (a.getContentType() == ContentType::IMAGE) sameImage(a.image(), b.image());
  if (a.getContentType() == ContentType::AUDIO)
    vs_assert(a.audio().getAudioFormat() == b.audio().getAudioFormat() && a.audio().getSampleFormat() == b.audio().getSampleFormat() && a.audio().getChannelCount() == b.audio().getChannelCount() &&
              a.audio().getSampleFrameStride() == b.audio().getSampleFrameStride() && a.audio().getSampleRate() == b.audio().getSampleRate() && a.audio().getSampleCount() == b.audio().getSampleCount() && a.audio() == b.audio(), KEPT);
}
PixelFormat pixels() { return (PixelFormat)(1 + vs_choose((unsigned)PixelFormat::COUNT - 1, "pixel format")); }
}
// A record format of two blocks, written as text and read back
VS_ENTRY(h_format_text) {
  ContentBlock b; string name; char c[3]; size_t n = 0;
  switch (vs_choose(9, "kind")) {
    case 0: b = ContentBlock((ContentType)vs_choose(3, "type"), vs_choose(2, "sized") ? number("size") : ContentBlock::kSizeUnknown); break;
    case 1: b = ContentBlock(pixels(), 640, 480, vs_choose(2, "stride") ? 20000 : 0, vs_choose(2, "stride2") ? 20001 : 0); break;
    case 2: { uint32_t w = number("width"); b = ContentBlock(PixelFormat::YUV_I420_SPLIT, w, w ? number("height") : 0, vs_choose(2, "strides") ? 4294967295u : 0, 0); if (b.image().getHeight() == 0) vs_assume(w == 0); break; }
    case 3: { uint32_t s = number("stride"); b = ContentBlock(ImageContentBlockSpec(PixelFormat::YUV_420_NV12, 1, 1, s, number("stride2")), vs_choose(2, "sized") ? 77 : ContentBlock::kSizeUnknown); break; }
    case 4: b = ContentBlock((ImageFormat)(1 + vs_choose((unsigned)ImageFormat::COUNT - 1, "image format")), vs_choose(2, "dims") ? 12 : 0, 0); vs_assume(b.image().getWidth() == 0); break;
    case 5: // codec name of any bytes
      n = TIER(2, 3); vs_sym_bytes(c, n, "codec"); n = 1 + vs_choose((unsigned)n, "length"); vs_assume(c[0] != 0); for (size_t i = 1; i < n; ++i) vs_assume(c[i] != 0);
      b = ContentBlock(string(c, n) + (vs_choose(2, "digits") ? "41" : ""), 7, PixelFormat::GREY8, 3, 2); break;
    case 6: { uint8_t q = vs_u8("quality"); b = vs_choose(2, "custom") ? ContentBlock(ImageContentBlockSpec(ImageFormat::CUSTOM_CODEC, "H", q, PixelFormat::RGB8, 5, 6, 15)) : ContentBlock("H", q, PixelFormat::UNDEFINED); 
      if (q > 100) { vs_assert(b.image().getCodecQuality() == ImageContentBlockSpec::kQualityUndefined, "a codec quality is at most 100"); return; } break; }
    case 7: { auto sf = (AudioSampleFormat)vs_choose((unsigned)AudioSampleFormat::COUNT, "sample format"); uint8_t ch = (uint8_t)vs_range(0, 20, "channels"), st = vs_choose(2, "stride") ? 200 : 0;
      b = ContentBlock((AudioFormat)(1 + vs_choose(2, "audio format")), sf, ch, st, vs_choose(2, "rate") ? number("rate") : 0, 480); break; }
    default: n = TIER(2, 3); vs_sym_bytes(c, n, "name"); b = CustomContentBlock(string(c, 1 + vs_choose((unsigned)n, "length")) + (vs_choose(2, "digits") ? "41" : ""), vs_choose(2, "sized") ? 5 : ContentBlock::kSizeUnknown);
  }
  ContentBlock back(b.asString()); sameBlock(back, b);
  RecordFormat f = vs_choose(2, "second") ? b + ContentBlock(ContentType::CUSTOM, 9) : ContentBlock(ContentType::DATA_LAYOUT) + b;
  RecordFormat g(f.asString());
  vs_assert(g == f && !(g != f) && g.getUsedBlocksCount() == f.getUsedBlocksCount() && eq(g.asString(), f.asString()), "a record format is rebuilt from its text as it was");
  for (size_t i = 0; i < f.getUsedBlocksCount(); ++i) sameBlock(g.getContentBlock(i), f.getContentBlock(i));
  vs_reach("rebuilt");
}
// The names of the tags holding record formats and data layouts
VS_ENTRY(h_format_tags) {
  static const Record::Type kt[] = {Record::Type::DATA, Record::Type::CONFIGURATION, Record::Type::STATE};
  Record::Type t = kt[vs_choose(3, "type")]; uint32_t v = number("version");
  Record::Type u; uint32_t w = 0;
  string tag = RecordFormat::getRecordFormatTagName(t, v);
  vs_assert(RecordFormat::parseRecordFormatTagName(tag, u, w) && u == t && w == v, "the type and version of a record format are read back from its tag name");
  string other = RecordFormat::getDataLayoutTagName(t, v, vs_choose(12, "index"));
  vs_assert(!RecordFormat::parseRecordFormatTagName(other, u, w), "the tag name of a data layout is not one of a record format");
  // any other text in place of the version is refused, or is a number of that many digits
  char c[3]; vs_sym_bytes(c, 3, "text"); size_t n = vs_choose(4, "length"); for (size_t i = 0; i < n; ++i) vs_assume(c[i] != 0);
  bool digits = n > 0; uint32_t num = 0; for (size_t i = 0; i < n; ++i) { digits = digits && c[i] >= '0' && c[i] <= '9'; num = num * 10 + (uint32_t)(c[i] - '0'); }
  string odd = tag.substr(0, tag.rfind(':') + 1) + string(c, n); bool ok = RecordFormat::parseRecordFormatTagName(odd, u, w);
  vs_assert(ok == digits && (!ok || (w == num && u == t)), "a version is a decimal number");
  vs_reach("tags");
}
// C18: every pixel format, any dimensions and strides
VS_ENTRY(h_image_geometry) {
  PixelFormat p = pixels(); static const uint32_t kh[] = {0, 1, 2, 65536, 33}, ks[] = {0, 1, 7, 4294967295u}; // one of the width and strides is symbolic
  uint32_t w = 5, h = kh[vs_choose(TIER(4, 5), "height")], s = 0, s2 = 0;
  switch (vs_choose(3, "symbolic")) { case 0: w = (uint32_t)vs_range(0, (1u << 28) - 1, "width"); break; case 1: s = vs_u32("stride"); s2 = ks[vs_choose(4, "stride2")]; w = vs_choose(6, "width"); break; default: s = ks[vs_choose(4, "stride")]; s2 = vs_u32("stride2"); w = vs_choose(6, "width"); }
  ImageContentBlockSpec i(p, w, h, s, s2);
  uint64_t line, line2 = 0, h2 = 0; uint32_t planes = 1; // bytes of a line of pixels, as the format is defined
  uint64_t W = w, H = h;
  switch (p) {
    case PixelFormat::GREY8: case PixelFormat::RGB_IR_RAW_4X4: case PixelFormat::BAYER8_RGGB: case PixelFormat::BAYER8_BGGR: case PixelFormat::BAYER8_GBRG: line = W; break;
    case PixelFormat::GREY10: case PixelFormat::GREY12: case PixelFormat::GREY16: case PixelFormat::BAYER10_GBRG: line = 2 * W; break;
    case PixelFormat::RGB8: case PixelFormat::BGR8: line = 3 * W; break;
    case PixelFormat::DEPTH32F: case PixelFormat::RGBA8: line = 4 * W; break;
    case PixelFormat::RGB10: case PixelFormat::RGB12: line = 6 * W; break;
    case PixelFormat::SCALAR64F: line = 8 * W; break;
    case PixelFormat::RGB32F: line = 12 * W; break;
    case PixelFormat::RGBA32F: line = 16 * W; break;
    case PixelFormat::YUY2: line = (W + 1) / 2 * 4; break;
    case PixelFormat::YUV_I420_SPLIT: line = W; planes = 3; line2 = (W + 1) / 2; h2 = (H + 1) / 2; break;
    case PixelFormat::YUV_420_NV21: case PixelFormat::YUV_420_NV12: line = W; planes = 2; line2 = (W + 1) / 2 * 2; h2 = (H + 1) / 2; break;
    default: line = (W + 3) / 4 * 5; // raw10 and grey10packed
  }
  vs_assume(W < (1u << 28)); // a line of the widest pixels takes less than 4 GB
  uint64_t st = s ? s : line, st2 = planes > 1 ? (s2 ? s2 : line2) : 0;
#define PLANES "the planes of an image have the sizes its pixel format defines"
  vs_assert(i.getPlaneCount() == planes && i.getDefaultStride() == line && i.getStride() == st && i.getPlaneStride(0) == st && i.getPlaneHeight(0) == h, PLANES);
  for (uint32_t k = 1; k < 4; ++k) vs_assert(i.getPlaneStride(k) == (k < planes ? st2 : 0) && i.getPlaneHeight(k) == (k < planes ? h2 : 0), PLANES);
  uint64_t total = 0; for (uint32_t k = 0; k < planes; ++k) total += (k ? st2 : st) * (k ? h2 : H);
  vs_assert(i.getRawImageSize() == (w && h && total ? total : ContentBlock::kSizeUnknown) && i.getBlockSize() == i.getRawImageSize(), "the size of an image is that of its planes");
  vs_assert(i.sanityCheckStrides() == ((!s || s >= line) && (!s2 || planes == 1 || s2 >= line2)), "a stride shorter than a line is told");
  ImageContentBlockSpec core = i.core();
  vs_assert(core.getRawImageSize() == i.getRawImageSize() && core.getStride() == i.getStride() && core.getPlaneStride(1) == i.getPlaneStride(1), "an image keeps its geometry without its redundant strides");
  vs_reach(p == PixelFormat::RAW10 ? "packed" : planes == 3 ? "planes" : "plain");
}
VS_ENTRY(h_audio_geometry) {
  auto sf = (AudioSampleFormat)(1 + vs_choose((unsigned)AudioSampleFormat::COUNT - 1, "sample format")); uint8_t ch = vs_u8("channels"), st = vs_u8("stride"); static const uint32_t kc[] = {0, 1, 480, 4294967295u}; uint32_t count = kc[vs_choose(4, "samples")];
  AudioContentBlockSpec a(AudioFormat::PCM, sf, ch, st, 48000, count);
  string n = toString(sf); unsigned bits = 8; for (unsigned b : {16u, 24u, 32u, 64u}) if (n.find(std::to_string(b)) != string::npos) bits = b;
  vs_assert(a.getBitsPerSample() == bits && a.getBytesPerSample() * 8u == bits, "a sample has the bits its name tells");
  uint64_t frame = st ? st : (uint64_t)(bits / 8) * ch; vs_assume(frame < 256);
  vs_assert(a.getSampleFrameStride() == frame && a.getPcmBlockSize() == (frame && count ? frame * count : ContentBlock::kSizeUnknown) && a.getBlockSize() == a.getPcmBlockSize(), "the size of an audio block is that of its samples");
  vs_reach("audio");
}
namespace {
struct BDev : Recordable {
  DataLayout* l; BDev(const RecordFormat& f, const vector<const DataLayout*>& ls) : Recordable(RecordableTypeId::UnitTest1) { addRecordFormat(Record::Type::DATA, 1, f, ls); }
  const Record* createConfigurationRecord() override { return nullptr; }
  const Record* createStateRecord() override { return nullptr; }
  void rec(double t, const void* p, size_t n) { createRecord(t, Record::Type::DATA, 1, DataSource(DataSourceChunk(p, n))); }
  using Recordable::addRecordFormat; using Recordable::createRecord;
};
struct Seen { size_t index; ContentType type; size_t size; vector<uint8_t> data; bool unsupported; ContentBlock cb; };
struct BPlayer : RecordFormatStreamPlayer {
  vector<Seen> seen; vector<uint16_t> fields;
  bool take(const CurrentRecord& r, size_t i, const ContentBlock& b) {
    size_t n = b.getBlockSize(); Seen s{i, b.getContentType(), n, {}, false, b};
    bool ok = n <= r.reader->getUnreadBytes(); if (ok) { s.data.resize(n); ok = n == 0 || r.reader->read(s.data) == 0; }
    seen.push_back(s); return ok;
  }
  bool onDataLayoutRead(const CurrentRecord&, size_t i, DataLayout& l) override { seen.push_back({i, ContentType::DATA_LAYOUT, 0, {}, false, ContentBlock()}); auto* f = l.findDataPieceValue<uint16_t>("x"); fields.push_back(f ? f->get() : 0); return true; }
  bool onImageRead(const CurrentRecord& r, size_t i, const ContentBlock& b) override { return take(r, i, b); }
  bool onAudioRead(const CurrentRecord& r, size_t i, const ContentBlock& b) override { return take(r, i, b); }
  bool onCustomBlockRead(const CurrentRecord& r, size_t i, const ContentBlock& b) override { return take(r, i, b); }
  bool onUnsupportedBlock(const CurrentRecord& r, size_t i, const ContentBlock& b) override { seen.push_back({i, b.getContentType(), b.getBlockSize(), {}, true, b}); return RecordFormatStreamPlayer::onUnsupportedBlock(r, i, b); }
};
struct X : AutoDataLayout { DataPieceValue<uint16_t> x{"x"}; AutoDataLayoutEnd end; };
struct XS : AutoDataLayout { DataPieceValue<uint16_t> x{"x"}; DataPieceString s{"s"}; AutoDataLayoutEnd end; };
}
// C17: up to 3 blocks of any kinds; a record of any size
VS_ENTRY(h_blocks) {
  int n = TIER(2, 3) ; RecordFormat f; X layouts[3]; XS texts[3]; bool anyText = false; vector<const DataLayout*> ls; vector<size_t> own; vector<int> kinds; // own: size known from the format
  vector<ContentBlock> bs;
  for (int i = 0; i < n; ++i) {
    int k = (int)vs_choose(9, "kind"); size_t size = ContentBlock::kSizeUnknown; ContentBlock b;
    switch (k) {
      case 0: b = ContentBlock(ContentType::CUSTOM, size = vs_choose(4, "size")); break;
      case 1: b = CustomContentBlock("f"); break;
      case 2: b = ContentBlock(PixelFormat::GREY8, 2, 1); size = 2; break;
      case 3: b = ContentBlock(ImageFormat::JPG); break;
      case 4: b = ContentBlock(AudioFormat::PCM, AudioSampleFormat::S16_LE, 1, 0, 48000, 1); size = 2; break;
      case 5: b = ContentBlock(AudioFormat::PCM, AudioSampleFormat::S16_LE, 1, 0, 48000); break;
      case 6: b = ContentBlock(ContentType::DATA_LAYOUT); size = 2; break;
      case 7: b = ContentBlock(ContentType::EMPTY); size = 0; break;
      default: b = ContentBlock(ContentType::DATA_LAYOUT); size = 10; anyText = true; // 2 bytes, the place and the length of the text, and the text
    }
    bs.push_back(b); own.push_back(size); kinds.push_back(k); ls.push_back(k == 6 ? (DataLayout*)&layouts[i] : k == 8 ? &texts[i] : nullptr);
  }
  f = n == 2 ? bs[0] + bs[1] : bs[0] + bs[1] + bs[2];
  BDev d(f, ls); uint8_t data[14]; size_t len = vs_choose(8, "record size"); if (anyText) len += 7; vs_sym_bytes(data, len, "data");
  RecordFileWriter w; w.addRecordable(&d); d.rec(1, data, len); vs_assert(w.writeToFile("/f.vrs") == 0, "the file is written");
  RecordFileReader rd; vs_assert(rd.openFile("/f.vrs") == 0, "the file opens");
  BPlayer p; rd.setStreamPlayer(d.getStreamId(), &p);
  RecordFormat ff; vs_assert(rd.getRecordFormat(d.getStreamId(), Record::Type::DATA, 1, ff) && ff == f, "the format of the records is found in the file");
  rd.readAllRecords();
  size_t at = 0, q = 0, fields = 0, used = f.getUsedBlocksCount();
#define FOUND "the blocks of a record are found where the format puts them"
  for (int i = 0; i < (int)used; ++i) {
    if (kinds[(size_t)i] == 7) continue;
    size_t left = len - at, later = 0; bool known = true;
    for (int j = i + 1; j < n; ++j) { if (own[(size_t)j] == ContentBlock::kSizeUnknown || kinds[(size_t)j] == 6 || kinds[(size_t)j] == 8) known = false; else later += own[(size_t)j]; } // the size of fields is not in the format
    size_t size = own[(size_t)i]; bool sized = true;
    if (kinds[(size_t)i] == 6 || kinds[(size_t)i] == 8) { size_t fixed = own[(size_t)i], text = 0; if (left < fixed) break; if (fixed == 10) { uint32_t o, l; memcpy(&o, data + at + 2, 4); memcpy(&l, data + at + 6, 4); text = (size_t)o + l; if (text > left - fixed) { vs_reach("text too long"); break; } text = vs_concretize(text); }
      vs_assert(q < p.seen.size() && p.seen[q].index == (size_t)i && p.seen[q].type == ContentType::DATA_LAYOUT, FOUND); uint16_t x; memcpy(&x, data + at, 2); vs_assert(fields < p.fields.size() && p.fields[fields++] == x, FOUND); ++q; at += fixed + text; continue; }
    if (size == ContentBlock::kSizeUnknown) { sized = known && later <= left; size = sized ? left - later : 0; if (kinds[(size_t)i] == 5 && sized && size % 2) sized = false; }
    vs_assert(q < p.seen.size(), FOUND);
    const Seen& s = p.seen[q++];
    vs_assert(s.index == (size_t)i && s.type == bs[(size_t)i].getContentType() && s.unsupported == !sized, FOUND);
    if (!sized) break;
    if (kinds[(size_t)i] == 5 && size == 0) vs_reach("no samples");
    vs_assert(s.size == size, "a block without a size takes what the others leave");
    if (size > left) break;
    vs_assert(s.data.size() == size, FOUND); sameBytes(s.data.data(), data + at, size, "a block has the bytes of its place in the record");
    if (kinds[(size_t)i] == 5) vs_assert(s.cb.audio().getSampleCount() == size / 2, "the samples of an audio block are counted");
    at += size;
    if (i + 1 == (int)used) vs_reach("all blocks read");
  }
  vs_assert(q == p.seen.size(), "no block is made up");
}
namespace {
namespace conv = vrs::datalayout_conventions;
struct ISpec : AutoDataLayout {
  DataPieceValue<uint32_t> w{conv::kImageWidth}, h{conv::kImageHeight}, stride{conv::kImageStride}; DataPieceEnum<PixelFormat, uint32_t> pf{conv::kImagePixelFormat};
  DataPieceValue<uint8_t> format{conv::kAudioFormat}, sample{conv::kAudioSampleFormat}, channels{conv::kAudioChannelCount}; DataPieceValue<uint32_t> rate{conv::kAudioSampleRate};
  AutoDataLayoutEnd end;
};
struct Next : AutoDataLayout { DataPieceValue<uint32_t> size{conv::kNextContentBlockSize}, samples{conv::kAudioSampleCount}, w{conv::kImageWidth}, h{conv::kImageHeight}; DataPieceEnum<PixelFormat, uint32_t> pf{conv::kImagePixelFormat}; DataPieceValue<uint8_t> format{conv::kAudioFormat}, sample{conv::kAudioSampleFormat}, channels{conv::kAudioChannelCount}; DataPieceValue<uint32_t> rate{conv::kAudioSampleRate}; AutoDataLayoutEnd end; };
struct CDev : Recordable {
  CDev() : Recordable(RecordableTypeId::UnitTest1) {}
  const Record* createConfigurationRecord() override { return nullptr; }
  const Record* createStateRecord() override { return nullptr; }
  using Recordable::addRecordFormat; using Recordable::createRecord;
};
// keeps the blocks as they are described, and may stop after some block of a configuration record
struct CPlayer : RecordFormatStreamPlayer {
  struct S { int record; size_t index; ContentType type; bool unsupported; ContentBlock cb; };
  vector<S> seen; vector<uint8_t> data; int record = 0; size_t stop = 99;
  void processRecord(const CurrentRecord& r, uint32_t n) override { RecordFormatStreamPlayer::processRecord(r, n); ++record; }
  bool see(const CurrentRecord& r, size_t i, const ContentBlock& b, bool u) { seen.push_back({record, i, b.getContentType(), u, b}); return false; }
  bool onDataLayoutRead(const CurrentRecord& r, size_t i, DataLayout&) override { return !(r.recordType == Record::Type::CONFIGURATION && i == stop); }
  bool onImageRead(const CurrentRecord& r, size_t i, const ContentBlock& b) override { return see(r, i, b, false); }
  bool onAudioRead(const CurrentRecord& r, size_t i, const ContentBlock& b) override { return see(r, i, b, false); }
  bool onUnsupportedBlock(const CurrentRecord& r, size_t i, const ContentBlock& b) override { return see(r, i, b, true); }
};
struct Values { uint32_t w, h, stride, pf; uint8_t format, sample, channels; uint32_t rate; bool image, audio; };
Values values(ISpec& l, bool audio, bool all) {
  Values v{2, 1, 0, 1, 1, 1, 1, 48000, false, false};
  if (audio) { v.rate = vs_u32("rate"); if (all) { v.format = vs_u8("audio format"); v.sample = vs_u8("sample format"); v.channels = (uint8_t)vs_range(0, 3, "channels"); } }
  else { v.w = (uint32_t)vs_range(0, 7, "width"); v.stride = (uint32_t)vs_range(0, 200, "stride"); if (all) { v.h = (uint32_t)vs_range(0, 3, "height"); v.pf = vs_u8("pixel format"); } }
  l.w.set(v.w); l.h.set(v.h); l.stride.set(v.stride); l.pf.set((PixelFormat)v.pf); l.format.set(v.format); l.sample.set(v.sample); l.channels.set(v.channels); l.rate.set(v.rate);
  v.image = (v.w != 0) & (v.h != 0) & (v.pf >= 1) & (v.pf < (uint32_t)PixelFormat::COUNT);
  v.audio = (v.format >= 1) & (v.format < (uint8_t)AudioFormat::COUNT) & (v.sample >= 1) & (v.sample < (uint8_t)AudioSampleFormat::COUNT) & (v.channels != 0) & (v.rate != 0);
  return v;
}
}
// What an image or audio block is comes from the fields before it, or else from the last configuration record
VS_ENTRY(h_blocks_spec) {
  bool audio = vs_bool("audio"); ISpec c1, c2, own, own2; X x;
  ContentBlock L(ContentType::DATA_LAYOUT), media = audio ? ContentBlock(ContentType::AUDIO) : ContentBlock(ImageFormat::RAW); if (audio) media = ContentBlock(AudioFormat::UNDEFINED, AudioSampleFormat::UNDEFINED);
  bool specFirst = vs_bool("spec first"), hasOwn = vs_bool("own fields"); unsigned when = (unsigned)vs_choose(4, "configuration"); // none, before, later, two
  bool stops = when && vs_bool("stops after a block");
  CDev d; 
  if (specFirst) d.addRecordFormat(Record::Type::CONFIGURATION, 1, L + L, {&c1, &x}); else d.addRecordFormat(Record::Type::CONFIGURATION, 1, L + L, {&x, &c1});
  d.addRecordFormat(Record::Type::DATA, 1, hasOwn ? L + media : RecordFormat(media), {hasOwn ? (DataLayout*)&own : nullptr});
  RecordFileWriter w; w.addRecordable(&d); Values vc{}, vc2{}, vo{}, vo2{}; uint8_t pixels[4] = {};
  auto config = [&](double t, DataLayout& l) { if (specFirst) d.createRecord(t, Record::Type::CONFIGURATION, 1, DataSource(l, x)); else d.createRecord(t, Record::Type::CONFIGURATION, 1, DataSource(x, l)); };
  auto data = [&](double t, DataLayout& l) { if (hasOwn) d.createRecord(t, Record::Type::DATA, 1, DataSource(l, DataSourceChunk(pixels, 4))); else d.createRecord(t, Record::Type::DATA, 1, DataSource(DataSourceChunk(pixels, 4))); };
  if (when) vc = values(c1, audio, TIER(!hasOwn && when < 3, true)); if (when == 3) vc2 = values(c2, audio, TIER(false, true)); if (hasOwn) { vo = values(own, audio, TIER(when == 0, true)); vo2 = values(own2, audio, false); }
  double tc = vs_f64("configuration time"); vs_assume(tc >= 1 && tc <= 2); double t2 = 3;
  if (when) config(tc, c1);
  data(2, own); if (when == 3) config(t2, c2); data(4, own2);
  vs_assert(w.writeToFile("/f.vrs") == 0, "the file is written");
  RecordFileReader rd; vs_assert(rd.openFile("/f.vrs") == 0, "the file opens"); CPlayer p; if (stops) p.stop = 0; rd.setStreamPlayer(d.getStreamId(), &p);
  auto& ix = rd.getIndex(); size_t n = ix.size();
  auto has = [&](const Values& v) { return audio ? v.audio : v.image; };
  bool usable = specFirst || !stops; // the fields of the spec were read
  int o = when ? 1 : 0; // reading order: the data records go first when the configuration is read later
  vector<int> order; if (when == 2) order = {1, 0, 2}; else if (when == 3 && vs_bool("later one first")) order = {2, 1, 3}; else for (size_t i = 0; i < n; ++i) order.push_back((int)i);
  int which = 0; const Values* cfg = nullptr; double cfgTime = 0; bool fromOwn = false, fromCfg = false;
  for (int i : order) {
    p.seen.clear(); rd.readRecord(ix[(size_t)i]);
    if (ix[(size_t)i].recordType != Record::Type::DATA) { cfg = i == 0 ? &vc : &vc2; cfgTime = i == 0 ? tc : t2; continue; }
    const Values* mine = !hasOwn ? nullptr : which == 0 ? &vo : &vo2; ++which;
    if (mine && fromCfg && has(*mine)) { vs_silent_end(); } // fields in the record after an image found its format in the configuration: unspecified
    const Values* want = mine && has(*mine) ? mine : cfg && usable && cfgTime <= ix[(size_t)i].timestamp && has(*cfg) ? cfg : nullptr;
    if (want == mine && mine) fromOwn = true; else if (cfg && cfgTime <= ix[(size_t)i].timestamp) fromCfg = true;
    vs_assert(p.seen.size() == 1 && p.seen[0].index == (hasOwn ? 1u : 0u) && p.seen[0].type == (audio ? ContentType::AUDIO : ContentType::IMAGE), "an image or audio block is presented once");
    const auto& s = p.seen[0];
    if (!want) { vs_assert(s.unsupported, "a block that is described nowhere is unsupported"); vs_reach("undescribed"); continue; }
    if (!audio) {
      vs_assert(!s.unsupported, "an image is described by the fields before it or in the last configuration"); const auto& im = s.cb.image();
      vs_assert(im.getImageFormat() == ImageFormat::RAW && im.getWidth() == want->w && im.getHeight() == want->h && (uint32_t)im.getPixelFormat() == want->pf && im.getRawStride() == want->stride, "an image is described by the fields before it or in the last configuration");
    } else if (!s.unsupported) {
      const auto& a = s.cb.audio();
      vs_assert((uint8_t)a.getAudioFormat() == want->format && (uint8_t)a.getSampleFormat() == want->sample && a.getChannelCount() == want->channels && a.getSampleRate() == want->rate, "audio is described by the fields before it or in the last configuration");
      if (a.getAudioFormat() == AudioFormat::PCM) vs_assert(a.getSampleCount() * a.getSampleFrameStride() == 4, "the samples of an audio block are counted"); else vs_assert(s.cb.getBlockSize() == 4, "the size of an audio block is known");
    } else vs_assert(want->format == (uint8_t)AudioFormat::PCM && 4 % (AudioContentBlockSpec::getBytesPerSample((AudioSampleFormat)want->sample) * want->channels) != 0, "audio is described by the fields before it or in the last configuration");
    vs_reach(want == mine ? "its own fields" : "the configuration");
  }
}
// The size of a block given by the fields before it
VS_ENTRY(h_blocks_size) {
  Next next; ContentBlock L(ContentType::DATA_LAYOUT), b; unsigned kind = (unsigned)vs_choose(5, "kind");
  switch (kind) {
    case 0: b = ContentBlock(ContentType::CUSTOM); break;
    case 1: b = ContentBlock(ImageFormat::PNG); break;
    case 2: b = ContentBlock("H.264", 50, PixelFormat::RGB8, 4, 4); break;
    case 3: b = ContentBlock(AudioFormat::PCM, AudioSampleFormat::S16_LE, 1, 0, 48000); break;
    default: b = ContentBlock(AudioFormat::OPUS, AudioSampleFormat::S16_LE, 1, 0, 48000);
  }
  bool tail = vs_bool("followed by a block"); X x;
  CDev d; RecordFormat f = L + b; if (tail) f = f + ContentBlock(ContentType::CUSTOM);
  d.addRecordFormat(Record::Type::DATA, 1, f, {&next});
  uint8_t data[6]; size_t len = TIER(2, 0) + vs_choose(TIER(3, 7), "bytes"); vs_sym_bytes(data, len, "data");
  RecordFileWriter w; w.addRecordable(&d); uint32_t z[2];
  for (int i = 0; i < 2; ++i) { z[i] = vs_u32("size"); next.size.set(z[i]); next.samples.set(0); next.w.set(4); next.h.set(4); next.pf.set(PixelFormat::RGB8); next.format.set(kind == 4 ? 2 : 0); next.sample.set(5); next.channels.set(1); next.rate.set(48000); d.createRecord(i, Record::Type::DATA, 1, DataSource(next, DataSourceChunk(data, len))); }
  vs_assert(w.writeToFile("/f.vrs") == 0, "the file is written");
  RecordFileReader rd; vs_assert(rd.openFile("/f.vrs") == 0, "the file opens"); BPlayer p; rd.setStreamPlayer(d.getStreamId(), &p);
  for (int i = 0; i < 2; ++i) {
    p.seen.clear(); rd.readRecord(rd.getIndex()[(size_t)i]);
    vs_assert(p.seen.size() >= 2 && p.seen[0].type == ContentType::DATA_LAYOUT && p.seen[1].index == 1, "the blocks of a record are found where the format puts them");
    auto& s = p.seen[1];
    if (kind == 3 && (z[i] & 1)) { vs_assert(s.unsupported, "half a sample is not audio"); continue; }
    vs_assert(!s.unsupported && s.type == b.getContentType() && s.size == z[i], "a block has the size the fields before it give");
    if (z[i] > len) { vs_assert(p.seen.size() == 2 && s.data.empty(), "no block is made up"); vs_reach("too large"); continue; }
    sameBytes(s.data.data(), data, s.data.size(), "a block has the bytes of its place in the record"); vs_assert(s.data.size() == z[i], "a block has the size the fields before it give");
    vs_assert(p.seen.size() == (tail ? 3 : 2), "no block is made up");
    if (tail) { auto& t = p.seen[2]; vs_assert(t.index == 2 && t.size == len - z[i] && t.data.size() == t.size, "the last block takes what is left"); sameBytes(t.data.data(), data + z[i], t.size, "a block has the bytes of its place in the record"); vs_reach("both"); }
    else vs_reach("alone");
  }
}
